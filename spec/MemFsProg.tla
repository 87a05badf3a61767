-------------------------- MODULE MemFsProg --------------------------
(* The concurrent programs to run: a setup and a few operations per thread *)
(* over paths that conflict in every way the operations can.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, LineOut, IOUtils
CONSTANTS Threads, PerThread
VARIABLES setup, prog, done

Op(o, p, d, m) == [op |-> o, p |-> p, d |-> d, perm |-> m]
Setups == {<<>>,
           <<Op("write", <<"a">>, "d1", "p1")>>,
           <<Op("mkdir", <<"a">>, "", "q1")>>,
           <<Op("mkdir", <<"a">>, "", "q1"), Op("write", <<"a", "b">>, "d1", "p1")>>,
           <<Op("write", <<"a">>, "d1", "p1"), Op("mkdir", <<"a", "b">>, "", "q2"), Op("write", <<"x", "y">>, "d1", "p1")>>}
OpSet == {Op("write", <<"a">>, "d2", "p2"), Op("write", <<"a">>, "d3", "p1"), Op("write", <<"a">>, "d0", "p3"),
          Op("write", <<"a", "b">>, "d2", "p2"), Op("write", <<"a", "b">>, "d3", "p3"),
          Op("mkdir", <<"a">>, "", "q2"), Op("mkdir", <<"a", "b">>, "", "q1"), Op("mkdir", <<"a", "b", "c">>, "", "q2"),
          Op("readfile", <<"a">>, "", ""), Op("readfile", <<"a", "b">>, "", ""),
          Op("stat", <<"a">>, "", ""), Op("stat", <<"a", "b">>, "", ""), Op("stat", <<>>, "", ""),
          Op("readdir", <<>>, "", ""), Op("readdir", <<"a">>, "", "")}

RECURSIVE Weight(_)
IsRead(o) == o.op \in {"readfile", "stat", "readdir"}
Weight(s) == IF s = <<>> THEN 0 ELSE (IF IsRead(s[1]) THEN 0 ELSE 1) + Weight(Tail(s))
\* a number per operation, to break the symmetry of the threads
Init == setup \in Setups /\ prog = <<>> /\ done = FALSE
Next == \/ /\ Len(prog) < Threads /\ ~done
           /\ \E s \in [1..PerThread -> OpSet] : prog' = Append(prog, s)
           /\ UNCHANGED <<setup, done>>
        \/ /\ Len(prog) = Threads /\ ~done /\ \E i \in 1..Threads : Weight(prog[i]) > 0
           /\ done' = TRUE /\ UNCHANGED <<setup, prog>>
Spec == Init /\ [][Next]_<<setup, prog, done>>
Emit == IF done' /\ ~done THEN EmitLine(ToJson([setup |-> setup, prog |-> prog])) ELSE TRUE
=======================================================================
