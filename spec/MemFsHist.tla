-------------------------- MODULE MemFsHist --------------------------
(* Trace validation: histories of concurrent operations recorded from the *)
(* real code are behaviours of MemFs, i.e. linearizable, directory         *)
(* creation being a sequence of atomic steps, one per path component.      *)
(* Many histories are validated in one run: the initial state picks one.   *)
EXTENDS MemFs, Json, LineOut, IOUtils

VARIABLES id, pos, th
hvars == <<tree, hs, id, pos, th>>

Traces == JsonDeserialize(IOEnv.TRACES)
Idle == [st |-> "idle"]

Apply(t, o) == CASE o.op = "mkdir" -> DoMkdirAll(t, o.p, o.perm)
                 [] o.op = "write" -> DoWriteFile(t, o.p, o.d, o.perm)
                 [] o.op = "stat" -> DoStat(t, o.p)
                 [] o.op = "readfile" -> DoReadFile(t, o.p)
                 [] o.op = "readdir" -> DoReadDir(t, o.p)

RECURSIVE After(_, _)
After(t, ops) == IF ops = <<>> THEN t ELSE After(Apply(t, ops[1]).t, Tail(ops))

HInit == /\ id \in 1..Len(Traces)
         /\ pos = 1
         /\ tree = After(InitTree, Traces[id].setup)
         /\ hs = <<>>
         /\ th = [t \in 1..Traces[id].n |-> Idle]

Ev == Traces[id].ev
Here == Ev[pos]

Matches(o, want, got) ==
    /\ want.r = got.r \/ (got.r = "ok-empty" /\ want.r = "ok")
    /\ (want.r = "ok" /\ o.op \in {"stat", "readfile"}) =>
          want.k = got.k /\ want.perm = got.perm /\ want.d = got.d /\ (o.p = <<>> \/ want.name = got.name)
    /\ (want.r = "ok" /\ o.op = "readdir") =>
          IF got.r = "ok-empty" THEN want.list = {} ELSE
          /\ Len(got.list) = Cardinality(want.list)
          /\ \A w \in want.list : \E i \in 1..Len(got.list) :
                LET g == got.list[i] IN g.name = w.name /\ g.k = w.k /\ g.perm = w.perm /\ g.d = w.d

CallEv == /\ pos <= Len(Ev) /\ Here.e = "call" /\ th[Here.t].st = "idle"
          /\ th' = [th EXCEPT ![Here.t] = [st |-> "called", o |-> Here.op, i |-> 1, res |-> <<>>]]
          /\ pos' = pos + 1 /\ UNCHANGED <<tree, hs, id>>

RetEv == /\ pos <= Len(Ev) /\ Here.e = "ret" /\ th[Here.t].st = "done"
         /\ Matches(th[Here.t].o, th[Here.t].res, Here.res)
         /\ th' = [th EXCEPT ![Here.t] = Idle]
         /\ pos' = pos + 1 /\ UNCHANGED <<tree, hs, id>>

\* The effect of a pending operation. It may be put off to just before the next return.
Lin(t) ==
    /\ pos <= Len(Ev) /\ Here.e = "ret" /\ th[t].st = "called"
    /\ LET o == th[t].o IN
       IF o.op = "mkdir" /\ Len(o.p) > 0
       THEN LET q == SubSeq(o.p, 1, th[t].i)
                x == DoMkdir(tree, q, o.perm)
                last == x.res.r # "ok" \/ th[t].i = Len(o.p) IN
            /\ tree' = x.t
            /\ th' = [th EXCEPT ![t].i = @ + 1, ![t].res = x.res, ![t].st = IF last THEN "done" ELSE "called"]
       ELSE LET x == Apply(tree, o) IN
            /\ tree' = x.t
            /\ th' = [th EXCEPT ![t].res = x.res, ![t].st = "done"]
    /\ UNCHANGED <<hs, id, pos>>

HNext == CallEv \/ RetEv \/ \E t \in DOMAIN th : Lin(t)
HSpec == HInit /\ [][HNext]_hvars

\* the ids of the histories that are behaviours of the specification
EmitOk == IF pos' > Len(Ev) /\ pos <= Len(Ev) THEN EmitLine(ToString(id)) ELSE TRUE
=======================================================================
