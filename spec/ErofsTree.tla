------------------------------ MODULE ErofsTree ------------------------------
(* Trees an EROFS image can encode: inodes (numbered) with names leading to  *)
(* them.  A file may have several names; the link count of a node is derived *)
(* from the names.  Attributes are classes, the driver picks values and the  *)
(* layout of the image.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, LineOut
CONSTANTS Names, Kinds, Sizes, Times, Modes, Owners, LinkTos, MaxNodes, MaxDepth
VARIABLES ino,    \* node number -> [k, sz, tm, md, ow, tg]
          at,     \* path -> node number
          done
vars == <<ino, at, done>>
Root == <<>>
Up(p) == SubSeq(p, 1, Len(p) - 1)
RootNode(m, t) == [k |-> "dir", sz |-> "-", tm |-> t, md |-> m, ow |-> "small", tg |-> "-"]
Dirs == {p \in DOMAIN at : ino[at[p]].k = "dir"}
Children(p) == {q \in DOMAIN at : q # Root /\ Up(q) = p}
Paths(i) == {p \in DOMAIN at : at[p] = i}
Nlink(i) == IF ino[i].k = "dir"
            THEN 2 + Cardinality({q \in Children(CHOOSE p \in DOMAIN at : at[p] = i) : ino[at[q]].k = "dir"})
            ELSE Cardinality(Paths(i))

Rnd(S) == RandomElement(S)
Attr(d) == LET k == Rnd(Kinds) IN [k |-> k, sz |-> IF k = "file" THEN Rnd(Sizes) ELSE "-", tm |-> Rnd(Times), md |-> Rnd(Modes), ow |-> Rnd(Owners),
            tg |-> IF k = "link" THEN Rnd(LinkTos) ELSE "-"]
Init == \E m \in Modes, t \in Times : ino = <<RootNode(m, t)>> /\ at = [p \in {Root} |-> 1] /\ done = FALSE
Put(p, i) == at' = [q \in DOMAIN at \cup {p} |-> IF q = p THEN i ELSE at[q]]
\* a new node, or another name for an old one
AddRandom ==
    /\ ~done /\ Cardinality(DOMAIN at) <= MaxNodes
    /\ \E p \in {Append(Rnd({q \in Dirs : Len(q) < MaxDepth}), Rnd(Names))} :
         IF p \in DOMAIN at THEN UNCHANGED vars
         ELSE LET olds == {i \in DOMAIN ino : ino[i].k # "dir"} IN
              IF olds # {} /\ Rnd(1..4) = 1
              THEN Put(p, Rnd(olds)) /\ UNCHANGED <<ino, done>>
              ELSE ino' = Append(ino, Attr(at)) /\ Put(p, Len(ino) + 1) /\ UNCHANGED done
Stop == ~done /\ (Cardinality(DOMAIN at) > MaxNodes \/ Rnd(1..12) = 1) /\ done' = TRUE /\ UNCHANGED <<ino, at>>
SimSpec == Init /\ [][AddRandom \/ Stop]_vars
Listing == [paths |-> {[p |-> p, i |-> at[p]] : p \in DOMAIN at}, nodes |-> [i \in DOMAIN ino |-> [a |-> ino[i], nlink |-> Nlink(i)]]]
Emit == IF done' /\ ~done THEN EmitLine(ToJson(Listing)) ELSE TRUE

\* --- facts ---------------------------------------------------------------------
TreeShaped == \A p \in DOMAIN at : p # Root => (Up(p) \in DOMAIN at /\ ino[at[Up(p)]].k = "dir")
DirsHaveOneName == \A i \in DOMAIN ino : ino[i].k = "dir" => Cardinality(Paths(i)) = 1
Reached == \A i \in DOMAIN ino : Paths(i) # {}
================================================================================
