------------------------------ MODULE DetermTrace ------------------------------
(* Recorded answers of the real code to questions about one thing each.       *)
EXTENDS Determ, Json, LineOut, IOUtils
VARIABLES id, i, proc
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[id].ev
TInit == /\ id \in 1..Len(Traces) /\ i = 1 /\ proc = 0
         /\ memo = << >> /\ agree = TRUE /\ truth = << >> /\ hidden = << >> /\ n = 0
\* other things are asked, time passes, a new process starts: all without effect on the memo
Elsewhere == Ev[i].op = "elsewhere" /\ UNCHANGED <<vars, proc>>
Restart == Ev[i].op = "restart" /\ proc' = proc + 1 /\ UNCHANGED vars
Answered == Ev[i].op = "ask" /\ Hear(Ev[i].k, Ev[i].a) /\ UNCHANGED <<truth, hidden, n, proc>>
TNext == i <= Len(Ev) /\ agree /\ i' = i + 1 /\ UNCHANGED id /\ (Elsewhere \/ Restart \/ Answered)
TSpec == TInit /\ [][TNext]_<<vars, id, i, proc>>
Emit == IF ~agree' THEN EmitLine("!" \o ToString(id) \o " " \o Ev[i].k \o " event " \o ToString(i) \o " process " \o ToString(proc))
        ELSE IF i' = Len(Ev) + 1 THEN EmitLine(ToString(id)) ELSE TRUE
================================================================================
