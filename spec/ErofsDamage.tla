----------------------------- MODULE ErofsDamage -----------------------------
(* One fault in an otherwise valid EROFS image, and what every path must     *)
(* answer then: an error where the damage is reached, the right answer       *)
(* everywhere else, and nowhere a wrong one.                                 *)
EXTENDS ErofsTree
VARIABLE fault
dvars == <<ino, at, done, fault>>

None == [f |-> "none", i |-> 0, p |-> <<>>]
SbFaults == {"magic", "checksum", "incompat", "bits", "short"}
InoFaults == {"xattr", "layout", "tail"}
DataFaults == {"beyond", "far", "huge"}
FirstFaults == {"first0", "firstsmall", "firstbig"}  \* a search reads the first entry of a block before anything else of it
DirFaults == FirstFaults \cup {"back", "empty", "out"}
NidFaults == {"nid", "nidhuge"}
HasData(i) == ino[i].k \in {"dir", "link"} \/ (ino[i].k = "file" /\ ino[i].sz # "s0")
Faults == {[f |-> x, i |-> 0, p |-> <<>>] : x \in SbFaults}
          \cup {[f |-> x, i |-> i, p |-> <<>>] : x \in InoFaults, i \in {j \in DOMAIN ino : ino[j].k \in {"dir", "link", "file"}}}
          \cup {[f |-> x, i |-> i, p |-> <<>>] : x \in DataFaults, i \in {j \in DOMAIN ino : HasData(j)}}
          \cup {[f |-> x, i |-> i, p |-> <<>>] : x \in DirFaults, i \in {j \in DOMAIN ino : ino[j].k = "dir"}}
          \cup {[f |-> x, i |-> 0, p |-> p] : x \in NidFaults, p \in DOMAIN at \ {Root}}

Prefixes(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}
Through(p, i) == \E q \in Prefixes(p) : at[q] = i
Below(p, i) == \E q \in Prefixes(p) \ {p} : at[q] = i
Parents(i) == {Up(q) : q \in Paths(i) \ {Root}}

\* stat: examining the node; data: its content, target or listing.
\* fine: the right answer; error: an error; any: either of them or what the changed inode says; right: the right answer or an error;
\* found: the right answer, or an error that does not deny the node's existence (so must an "error")
Answer(p, x) ==
    CASE x.f = "none" -> [stat |-> "fine", data |-> "fine"]
      [] x.f \in InoFaults -> IF Through(p, x.i) THEN [stat |-> "error", data |-> "error"]
                              ELSE [stat |-> "fine", data |-> IF p \in Parents(x.i) THEN "right" ELSE "fine"]
      [] x.f \in DataFaults -> IF at[p] = x.i THEN [stat |-> "any", data |-> "error"]
                               ELSE IF Below(p, x.i) THEN [stat |-> "any", data |-> "any"]   \* may meet another directory's entries
                               ELSE [stat |-> "fine", data |-> IF p \in Parents(x.i) THEN "right" ELSE "fine"]
      [] x.f \in DirFaults -> IF at[p] = x.i THEN [stat |-> "fine", data |-> "error"]
                              ELSE IF Below(p, x.i) THEN IF x.f \in FirstFaults THEN [stat |-> "found", data |-> "found"]
                                                                                 ELSE [stat |-> "right", data |-> "right"]
                              ELSE [stat |-> "fine", data |-> "fine"]
      [] x.f \in NidFaults -> IF x.p \in Prefixes(p) THEN [stat |-> "error", data |-> "error"]
                              ELSE [stat |-> "fine", data |-> IF p = Up(x.p) THEN "right" ELSE "fine"]
OpenAnswer(x) == IF x.f \in SbFaults THEN "refuse" ELSE IF x.i = 1 THEN "any" ELSE "ok"
Answers(x) == IF x.f \in SbFaults THEN {} ELSE {[p |-> p, stat |-> Answer(p, x).stat, data |-> Answer(p, x).data] : p \in DOMAIN at}

DInit == Init /\ fault = None
Damage(x) == /\ fault = None /\ fault' = x /\ done' = TRUE /\ UNCHANGED <<ino, at>>
DSimNext == \/ AddRandom /\ UNCHANGED fault
            \/ /\ ~done /\ (Cardinality(DOMAIN at) > MaxNodes \/ Rnd(1..12) = 1)
               /\ \E x \in {Rnd(Faults)} : Damage(x)
DSimSpec == DInit /\ [][DSimNext]_dvars

\* a fixed tree with everything in it, every fault
FNode(k, sz, tg) == [k |-> k, sz |-> sz, tm |-> "sec", md |-> "m755", ow |-> "small", tg |-> tg]
FInit == /\ ino = <<FNode("dir", "-", "-"), FNode("file", "s513", "-"), FNode("dir", "-", "-"), FNode("link", "-", "t60"), FNode("file", "s4096", "-"),
                    FNode("dir", "-", "-"), FNode("file", "s1", "-")>>
         /\ at = (<<>> :> 1) @@ (<<"a">> :> 2) @@ (<<"b">> :> 3) @@ (<<"e">> :> 4) @@ (<<"b", "c">> :> 2) @@ (<<"b", "d">> :> 5)
                 @@ (<<"b", "f">> :> 6) @@ (<<"b", "f", "a">> :> 7)
         /\ done = FALSE /\ fault = None
DSpec == FInit /\ [][\E x \in Faults \cup {None} : ~done /\ Damage(x)]_dvars

DEmit == IF done' /\ ~done
         THEN EmitLine(ToJson([paths |-> Listing.paths, nodes |-> Listing.nodes, fault |-> fault', open |-> OpenAnswer(fault'), want |-> Answers(fault')]))
         ELSE TRUE
\* --- facts: damage is local, and never unnoticed where it is reached
Noticed == (fault.f \notin SbFaults \cup {"none"}) => \E p \in DOMAIN at : Answer(p, fault).data = "error"
Local == (fault.f \notin SbFaults \cup {"none"} /\ fault.i # 1) =>
    \A p \in DOMAIN at : (~Through(p, fault.i) /\ fault.p \notin Prefixes(p) \ {Root}) => Answer(p, fault).stat = "fine"
================================================================================
