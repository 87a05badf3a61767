--------------------------- MODULE MemFsGen ---------------------------
(* Test generation from MemFs: one test per transition of the state graph *)
(* (VIEW hides the history) or random behaviours (simulation).            *)
EXTENDS MemFs, Json, LineOut, IOUtils
CONSTANTS MaxLen,     \* longest history
          EmitAll     \* TRUE: a test per transition; FALSE: a test per complete behaviour
VARIABLES hist, done
vars == <<tree, hs, hist, done>>
View == <<tree, hs, done>>

\* What a directory read delivers of changes made after it began is not specified.
Quiet == \A h \in Handles : ~(hs[h].st = "dir" /\ hs[h].started)

GInit == Init /\ hist = <<>> /\ done = FALSE
GNext == \/ /\ Len(hist) < MaxLen
            /\ UNCHANGED done
            /\ \/ \E x \in (IF Quiet THEN Mutators(tree) ELSE {}) \cup Queries(tree) :
                     tree' = x.t /\ hist' = Append(hist, x.c) /\ UNCHANGED hs
               \/ \E h \in Handles : \E x \in HandleOps(h, hs[h]) :
                     hist' = Append(hist, x.c) /\ hs' = [hs EXCEPT ![h] = x.h] /\ UNCHANGED tree
         \/ /\ ~EmitAll /\ Len(hist) = MaxLen /\ ~done
            /\ done' = TRUE /\ UNCHANGED <<tree, hs, hist>>
\* random behaviours: one random step
Step(x) == hist' = Append(hist, x.c) /\ UNCHANGED done
RStep(p, o) ==
    IF Handles # {} /\ o \in {"open", "read", "fstat", "close", "dirread"}
    THEN \E h \in {RandomElement(Handles)} : LET xs == HandleOpsOn(h, hs[h], {p}, {o}) IN
         IF xs = {} THEN UNCHANGED vars
         ELSE \E x \in {RandomElement(xs)} : Step(x) /\ hs' = [hs EXCEPT ![h] = x.h] /\ UNCHANGED tree
    ELSE LET xs == (IF Quiet THEN MutatorsOn(tree, {p}, {o}) ELSE {}) \cup QueriesOn(tree, {p}, {o}) IN
         IF xs = {} THEN UNCHANGED vars
         ELSE \E x \in {RandomElement(xs)} : Step(x) /\ tree' = x.t /\ UNCHANGED hs
GRandom == IF Len(hist) < MaxLen
           THEN \E p \in {RandomElement(Paths \cup BadPaths)}, o \in {RandomElement(Ops)} : RStep(p, o)
           ELSE ~done /\ done' = TRUE /\ UNCHANGED <<tree, hs, hist>>
GRandomSpec == GInit /\ [][GRandom]_vars
GSpec == GInit /\ [][GNext]_vars

TreeOut(t) == {[p |-> p, k |-> t[p].k, d |-> t[p].d, perm |-> t[p].perm] : p \in DOMAIN t}
Emit == IF (EmitAll /\ hist' # hist) \/ (done' /\ ~done)
        THEN EmitLine(ToJson([h |-> hist', t |-> TreeOut(tree')])) ELSE TRUE

\* every successful operation changes exactly what it should, a failing one changes nothing
FrameOK == [][hist' # hist => LET c == hist'[Len(hist')] IN
               /\ (c.op \notin {"mkdir", "write"} \/ c.res.r # "ok") => tree' = tree
               /\ (c.op = "write" /\ c.res.r = "ok") => \A p \in DOMAIN tree : p # c.a.p => tree'[p] = tree[p]
               /\ (c.op = "mkdir") => \A p \in DOMAIN tree : tree'[p] = tree[p]]_vars
=======================================================================
