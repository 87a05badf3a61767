-------------------------- MODULE MemFsConc --------------------------
(* Design model of memfs at the grain of its locks: one mutex per         *)
(* directory, taken for one component at a time and never two at once.     *)
(* ctree is what the critical sections have done, atree the abstract tree  *)
(* changed by the operators of MemFs at each linearization point. Checked:  *)
(* they never differ, every result is the one MemFs prescribes at the       *)
(* linearization point, nothing deadlocks and every operation ends.         *)
EXTENDS MemFs
CONSTANT Threads, Programs
VARIABLES ctree, lock, th
cvars == <<tree, hs, ctree, lock, th>>

Free == 0
NOp(o, p, d, m) == [op |-> o, p |-> p, d |-> d, perm |-> m]

\* the directory whose mutex the next critical section of t needs: the parent of component i of the path
Cur(t) == SubSeq(th[t].todo[1].p, 1, th[t].i - 1)
O(t) == th[t].todo[1]

CInit == /\ tree = InitTree /\ hs = <<>> /\ ctree = InitTree
         /\ lock = [p \in {<<>>} |-> Free]
         /\ \E pr \in Programs : th = [t \in Threads |-> [todo |-> pr[t], i |-> 1, pc |-> "want", res |-> <<>>, abs |-> <<>>]]

Acquire(t) == /\ th[t].todo # <<>> /\ th[t].pc = "want"
              /\ lock[Cur(t)] = Free
              /\ lock' = [lock EXCEPT ![Cur(t)] = t]
              /\ th' = [th EXCEPT ![t].pc = "crit"]
              /\ UNCHANGED <<tree, hs, ctree>>

Finish(t, res, abs) == th' = [th EXCEPT ![t].pc = "ret", ![t].res = res, ![t].abs = abs]
Advance(t) == th' = [th EXCEPT ![t].pc = "want", ![t].i = @ + 1]
Release(t, p) == lock' = [q \in DOMAIN lock \cup (IF IsDirAt(ctree', p) THEN {p} ELSE {}) |->
                            IF q = Cur(t) THEN Free ELSE IF q \in DOMAIN lock THEN lock[q] ELSE Free]

\* One critical section: component i of the path is looked up in its parent.
Crit(t) ==
    /\ th[t].todo # <<>> /\ th[t].pc = "crit"
    /\ LET o == O(t)
           q == SubSeq(o.p, 1, th[t].i)
           last == th[t].i = Len(o.p)
       IN
       CASE o.op = "mkdir" ->
              LET x == DoMkdir(tree, q, o.perm) IN
              /\ tree' = x.t
              /\ IF ~Has(ctree, q) THEN ctree' = Extend(ctree, q, DirNode(o.perm)) /\ (IF last THEN Finish(t, [r |-> "ok"], x.res) ELSE Advance(t))
                 ELSE ctree' = ctree /\ IF ctree[q].k = "file" THEN Finish(t, [r |-> "invalid"], x.res)
                                        ELSE IF last THEN Finish(t, [r |-> "ok"], x.res) ELSE Advance(t)
         [] o.op = "write" ->
              IF ~last /\ IsDirAt(ctree, q) THEN Advance(t) /\ UNCHANGED <<tree, ctree>>
              ELSE LET x == DoWriteFile(tree, o.p, o.d, o.perm) IN
                   /\ tree' = x.t
                   /\ IF ~last THEN Finish(t, [r |-> "notexist"], x.res) /\ UNCHANGED ctree
                      ELSE IF IsDirAt(ctree, q) THEN Finish(t, [r |-> "exist"], x.res) /\ UNCHANGED ctree
                      ELSE /\ Finish(t, [r |-> "ok"], x.res)
                           /\ ctree' = Extend(ctree, q, FileNode(o.d, IF Has(ctree, q) THEN ctree[q].perm ELSE o.perm))
         [] OTHER ->
              /\ UNCHANGED <<tree, ctree>>
              /\ IF ~last /\ IsDirAt(ctree, q) THEN Advance(t)
                 ELSE Finish(t, IF last /\ Has(ctree, q) THEN StatOf(ctree, q) ELSE [r |-> "notexist"], DoStat(tree, o.p).res)
    /\ Release(t, SubSeq(O(t).p, 1, th[t].i))
    /\ UNCHANGED hs

Return(t) == /\ th[t].todo # <<>> /\ th[t].pc = "ret"
             /\ th' = [th EXCEPT ![t] = [todo |-> Tail(@.todo), i |-> 1, pc |-> "want", res |-> <<>>, abs |-> <<>>]]
             /\ UNCHANGED <<tree, hs, ctree, lock>>

Step(t) == Acquire(t) \/ Crit(t) \/ Return(t)
Done == \A t \in Threads : th[t].todo = <<>>
CNext == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED cvars)
CSpec == CInit /\ [][CNext]_cvars /\ \A t \in Threads : SF_cvars(Acquire(t)) /\ WF_cvars(Crit(t)) /\ WF_cvars(Return(t))

Same == tree = ctree
Linearizable == \A t \in Threads : th[t].pc = "ret" => th[t].res = th[t].abs
OneLock == \A t \in Threads : Cardinality({p \in DOMAIN lock : lock[p] = t}) <= 1
HeldInside == \A p \in DOMAIN lock : lock[p] # Free => th[lock[p]].pc = "crit"
Terminates == <>Done
=======================================================================
