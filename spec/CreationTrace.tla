---------------------------- MODULE CreationTrace ----------------------------
(* Recorded conversations of the real creators are behaviours of Creation.   *)
EXTENDS Creation, Json, LineOut, IOUtils
VARIABLES id, i
Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[id]
Ev == T.ev[i]
TInit == /\ id \in 1..Len(Traces) /\ i = 1
         /\ fmt = T.fmt
         /\ node = [p \in {x.p : x \in {T.nodes[j] : j \in 1..Len(T.nodes)}} |->
                     LET x == CHOOSE x \in {T.nodes[j] : j \in 1..Len(T.nodes)} : x.p = p IN [k |-> x.k, n |-> x.n, d |-> x.d]]
         /\ listed = {} /\ seen = {} /\ linked = {} /\ hs = << >> /\ whole = {} /\ lied = FALSE /\ failed = FALSE /\ out = "run"
TNext == /\ i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED id
         /\ IF T.want = "tidy" /\ Ev.op \notin {"open", "close"} THEN UNCHANGED vars  \* only what is open matters
            ELSE \/ Ev.op = "list" /\ List(Ev.p, Ev.ok)
                 \/ Ev.op = "examine" /\ Examine(Ev.p, Ev.ok)
                 \/ Ev.op = "link" /\ ReadLink(Ev.p, Ev.ok)
                 \/ Ev.op = "open" /\ Open(Ev.p, Ev.h, Ev.ok)
                 \/ Ev.op = "read" /\ Read(Ev.h, Ev.n, Ev.eof, Ev.ok)
                 \/ Ev.op = "close" /\ Close(Ev.h)
                 \/ Ev.op = "write" /\ Write(Ev.ok)
                 \/ Ev.op = "success" /\ Succeed
                 \/ Ev.op = "error" /\ Fail
TSpec == TInit /\ [][TNext]_<<vars, id, i>>
Emit == IF i' = Len(T.ev) + 1 /\ (T.want = "tidy" => Tidy) THEN EmitLine(ToString(id)) ELSE TRUE
================================================================================
