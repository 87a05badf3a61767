---------------------------- MODULE ResolveGen ----------------------------
(* Trees with symbolic links, and what each path of them must resolve to.   *)
EXTENDS Resolve, Json, LineOut, IOUtils, TLC
CONSTANTS Slots,    \* sequence of paths where links are put
          Targets,  \* what they may lead to
          Plain,    \* the nodes that are not links
          Depth,
          MaxNodes,
          Lens      \* of chains
VARIABLES tree, filled, done
rvars == <<tree, filled, done>>

T(abs, cs) == [abs |-> abs, cs |-> cs]
None == T(FALSE, <<>>)
Dir == [k |-> "dir", t |-> None]
File == [k |-> "file", t |-> None]
Link(t) == [k |-> "link", t |-> t]
Put(p, n) == [q \in DOMAIN tree \cup {p} |-> IF q = p THEN n ELSE tree[q]]

Init == tree = Plain /\ filled = 0 /\ done = FALSE
Fill == /\ filled < Len(Slots)
        /\ \E t \in Targets : tree' = Put(Slots[filled + 1], Link(t))
        /\ filled' = filled + 1 /\ UNCHANGED done
Finish == ~done /\ filled = Len(Slots) /\ done' = TRUE /\ UNCHANGED <<tree, filled>>
Spec == Init /\ [][Fill \/ Finish]_rvars

\* random trees: a node somewhere in an existing directory
Rnd(S) == RandomElement(S)
RNames == {"a", "b", "c", "d"}
\* (tr: TLC evaluates constant operators only once)
RTarget(tr) == LET up == Rnd(0..3)
               body == [i \in 1..Rnd({0, 1, 1, 1, 2, 2, 3}) |-> Rnd({"a", "b", "c", "d", "a", "b", "c", "d", "..", "..", ".", "", "zz"})]
               cs == [i \in 1..up |-> ".."] \o body
               abs == Rnd({TRUE, FALSE, FALSE}) IN
           \* a target that starts with nothing would be absolute
           IF cs = <<>> THEN T(abs, <<>>) ELSE IF Head(cs) = "" THEN T(TRUE, Tail(cs)) ELSE T(abs, cs)
\* a target that exists, seen from d
RGood(d) == LET p == Rnd(DOMAIN tree) IN
            IF Rnd(1..3) = 1 \/ (d = <<>> /\ p = <<>>) THEN T(TRUE, p) ELSE T(FALSE, [i \in 1..Len(d) |-> ".."] \o p)
RNode == LET dirs == {p \in DOMAIN tree : IsDir(tree, p) /\ Len(p) < 4}
             d == Rnd(dirs)
             n == Rnd(RNames)
             k == Rnd({"dir", "dir", "file", "link", "link", "link"} \X (1..2))[1]
             r == Rnd(1..6) IN
         <<Append(d, n), IF r \in 1..2 THEN Dir ELSE IF r = 3 THEN File ELSE IF r = 4 THEN Link(RTarget(tree)) ELSE Link(RGood(d))>>
Grow == /\ filled < MaxNodes
        /\ \E x \in {RNode} : tree' = IF x[1] \in DOMAIN tree THEN tree ELSE Put(x[1], x[2])
        /\ filled' = filled + 1 /\ UNCHANGED done
RFinish == ~done /\ filled = MaxNodes /\ done' = TRUE /\ UNCHANGED <<tree, filled>>
SimSpec == Init /\ [][Grow \/ RFinish]_rvars

\* chains: the first slot leads to the second and so on, the last to a file or directory
Step1(i, cyc) == IF i < Len(Slots) THEN T(TRUE, Slots[i + 1]) ELSE T(TRUE, cyc)
ChainInit == /\ filled = 0 /\ done = FALSE
             /\ \E k \in Lens : \E e \in {<<"f">>, <<"d">>, <<"zz">>, Slots[1], Slots[k]} : \E rel \in BOOLEAN :
                  tree = [q \in DOMAIN Plain \cup {Slots[i] : i \in 1..k} |->
                            IF q \in DOMAIN Plain THEN Plain[q]
                            ELSE LET i == CHOOSE j \in 1..k : Slots[j] = q
                                     to == IF i < k THEN Slots[i + 1] ELSE e IN
                                 Link(IF rel THEN T(FALSE, [j \in 1..Len(q) - 1 |-> ".."] \o to) ELSE T(TRUE, to))]
ChainSpec == ChainInit /\ [][~done /\ done' = TRUE /\ UNCHANGED <<tree, filled>>]_rvars

Q == Ask(tree, Depth)
Facts == done => /\ WellFormed(tree) /\ Own(tree)
                 /\ LET Qs == Q IN OkIsThere(tree, Qs) /\ OnlyLast(tree, Qs) /\ Compose(tree, Qs) /\ Stands(tree, Qs)
Emit == IF done' /\ ~done
        THEN EmitLine(ToJson([nodes |-> {[p |-> p, k |-> tree[p].k, abs |-> tree[p].t.abs, cs |-> tree[p].t.cs] : p \in DOMAIN tree},
                 q |-> {[p |-> x, stat |-> Prescribed(tree, x, TRUE), lstat |-> Prescribed(tree, x, FALSE)] : x \in Q}]))
        ELSE TRUE
===========================================================================
