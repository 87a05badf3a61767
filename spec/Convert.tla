------------------------------- MODULE Convert -------------------------------
(* What creating an archive from a filesystem must preserve, and chains of  *)
(* such conversions.  A filesystem is a tree of nodes with attributes given *)
(* as classes (the driver picks concrete values); cur says where the tree   *)
(* is now and what is still known to be as in the source.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, LineOut
CONSTANTS Formats,   \* conversions that chains are made of
          MaxSteps, MaxNodes, MaxDepth,
          NameToks, Kinds, Sizes, Times, Modes, Owners, LinkTos, SrcKinds
VARIABLES tree, src, cur, steps, done
vars == <<tree, src, cur, steps, done>>

Node(k, sz, tm, md, ow, tg) == [k |-> k, sz |-> sz, tm |-> tm, md |-> md, ow |-> ow, tg |-> tg]
RootNode == Node("dir", "-", "sec", "m755", "small", "-")
Root == [p \in {<<>>} |-> RootNode]
Up(p) == SubSeq(p, 1, Len(p) - 1)
Put(t, p, n) == [q \in DOMAIN t \cup {p} |-> IF q = p THEN n ELSE t[q]]
Nodes(t) == {t[p] : p \in DOMAIN t \ {<<>>}}
Names(t) == {p[Len(p)] : p \in DOMAIN t \ {<<>>}}
\* a "many" stands for as many small files as its size says, all in the directory it lies in,
\* a "deep" for a chain of as many directories, one in the other
Flat(t) == \A p \in DOMAIN t : p # <<>> => Len(p) = 1 /\ t[p].k \in {"file", "many"}
Special(t) == \E n \in Nodes(t) : n.k \notin {"file", "dir", "link", "many", "deep"}
Has(t, ks) == \E n \in Nodes(t) : n.k \in ks

\* --- what a format can express -------------------------------------------
\* sources that are archives made by others, and opened
Archives == {"tar", "erofs", "ar"}
\* sources that have times of their own
Retimes == {"mem", "disk"}
\* owners a creation from this kind of filesystem passes on
Passes(f, kind) == CASE f = "tar" -> kind \in {"hdr", "tar"}
                     [] f = "erofs" -> kind \in {"hdr", "stat", "disk", "tar", "erofs"}
                     [] f = "ar" -> kind \in {"hdr", "tar", "ar"}
Refuses(f, t, c) ==
  CASE f = "tar" -> Has(t, {"sock", "irr"}) \/ "nul" \in Names(t) \/ (\E n \in Nodes(t) : n.k = "link" /\ n.tg = "tnul") \/ (c.kind = "blind" /\ Has(t, {"link"}))
    [] f = "erofs" -> Special(t) \/ (c.kind = "blind" /\ Has(t, {"link"})) \/ Names(t) \cap {"n256", "n300", "nul"} # {} \/ \E n \in Nodes(t) : n.k = "link" /\ n.tg \in {"t4096", "t5000"}
    [] f = "ar" -> ~Flat(t) \/ Names(t) \cap {"n17", "n100", "n255", "n256", "n300", "tsp"} # {}
                   \/ (\E n \in Nodes(t) : n.sz = "s10000000000")
                   \/ (src \notin Retimes /\ \E n \in Nodes(t) : n.tm = "huge")
                   \/ (c.own = "same" /\ Passes("ar", c.kind) /\ \E n \in Nodes(t) : n.ow = "wide")
\* not promised either way: owners that need not be passed on but may not fit, kinds that a tar archive can hold
Unsure(f, t, c) == \/ f = "ar" /\ src \in Retimes /\ \E n \in Nodes(t) : n.tm = "huge"
                   \/ f = "ar" /\ ~(c.own = "same" /\ Passes("ar", c.kind)) /\ \E n \in Nodes(t) : n.ow = "wide"
                   \/ f = "ar" /\ "nul" \in Names(t)
                   \/ f = "tar" /\ Special(t)

Outcome(f, t, c) == IF Refuses(f, t, c) THEN "refuse" ELSE IF Unsure(f, t, c) THEN "any" ELSE "ok"
After(f, c) == [kind |-> f,
                own |-> IF c.own = "same" /\ Passes(f, c.kind) THEN "same" ELSE "any",
                time |-> IF f = "erofs" THEN c.time ELSE "seconds",
                root |-> IF f = "erofs" /\ c.root = "same" THEN "same" ELSE "any"]

\* --- trees ------------------------------------------------------------------
Attrs == [k : Kinds, sz : Sizes, tm : Times, md : Modes, ow : Owners, tg : LinkTos]
Norm(a) == Node(a.k, IF a.k \in {"file", "many", "deep"} THEN a.sz ELSE "-", a.tm, a.md, a.ow, IF a.k = "link" THEN a.tg ELSE "-")
Rnd(S) == RandomElement(S)
RNode(t) == Norm([k |-> Rnd(Kinds), sz |-> Rnd(Sizes), tm |-> Rnd(Times), md |-> Rnd(Modes), ow |-> Rnd(Owners), tg |-> Rnd(LinkTos)])  \* (t: TLC evaluates constant operators once)
Dirs(t) == {p \in DOMAIN t : t[p].k = "dir" /\ Len(p) < MaxDepth}

Start(s) == [kind |-> s, own |-> IF s \in {"hdr", "stat", "disk"} \cup Archives THEN "same" ELSE "any", time |-> "exact", root |-> "same"]
Init == tree = Root /\ src \in SrcKinds /\ cur = Start(src) /\ steps = <<>> /\ done = FALSE
AddTo(p, n) == tree' = Put(tree, p, n) /\ UNCHANGED <<src, cur, steps, done>>
\* exhaustive: every way to add a node
Add == /\ steps = <<>> /\ ~done /\ Cardinality(DOMAIN tree) <= MaxNodes
       /\ \E d \in Dirs(tree), x \in NameToks : Append(d, x) \notin DOMAIN tree /\ \E a \in {Norm(b) : b \in Attrs} : AddTo(Append(d, x), a)
\* random: one way
AddRandom == /\ steps = <<>> /\ ~done /\ Cardinality(DOMAIN tree) <= MaxNodes
             /\ \E x \in {<<Append(Rnd(Dirs(tree)), Rnd(NameToks)), RNode(tree)>>} :
                  IF x[1] \in DOMAIN tree THEN Rnd(1..3) > 1 /\ UNCHANGED vars ELSE AddTo(x[1], x[2])
Convert(f) == LET r == Outcome(f, tree, cur) IN
              /\ steps' = Append(steps, [f |-> f, r |-> r, own |-> After(f, cur).own, time |-> After(f, cur).time, root |-> After(f, cur).root])
              /\ cur' = After(f, cur)
              /\ done' = (r # "ok" \/ Len(steps) + 1 = MaxSteps)
              /\ UNCHANGED <<tree, src>>
Step == ~done /\ \E f \in Formats : Convert(f)
StepRandom == ~done /\ (Cardinality(DOMAIN tree) > MaxNodes \/ steps # <<>> \/ Rnd(1..8) = 1) /\ \E f \in {Rnd(Formats)} : Convert(f)
Spec == Init /\ [][Add \/ Step]_vars
SimSpec == Init /\ [][AddRandom \/ StepRandom]_vars

Emit == IF done' /\ ~done
        THEN EmitLine(ToJson([src |-> src, steps |-> steps',
                              nodes |-> {[p |-> p, a |-> tree[p]] : p \in DOMAIN tree}]))
        ELSE TRUE

\* --- facts ------------------------------------------------------------------
TypeOK == \A p \in DOMAIN tree : p # <<>> => Up(p) \in DOMAIN tree /\ tree[Up(p)].k = "dir"
\* a conversion repeated with the same format promises the same again
Idem(f) == LET a == After(f, cur) IN After(f, a) = a \/ Passes(f, f) = FALSE
Idempotent == \A f \in Formats : Idem(f)
\* once a format has accepted a tree it accepts what it made of it
Stable == \A f \in Formats : Outcome(f, tree, cur) = "ok" => Outcome(f, tree, After(f, cur)) = "ok"
\* nothing is regained
Monotone == [][/\ (cur.own = "any" => cur'.own = "any") /\ (cur.time = "seconds" => cur'.time = "seconds")
               /\ (cur.root = "any" => cur'.root = "any")]_vars
=============================================================================
