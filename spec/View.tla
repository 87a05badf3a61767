-------------------------------- MODULE View --------------------------------
(* One filesystem seen through its different operations.  A record holds     *)
(* what a real filesystem answered: its listings, what it says about each    *)
(* listed path itself, a walk, and answers to further questions - through    *)
(* links, below files, for names that are not there.  The first two are put  *)
(* together into a tree; the record is accepted if there is such a tree and  *)
(* it gives every other answer.                                              *)
EXTENDS Resolve, TLC, Json, LineOut, IOUtils
VARIABLES id, ph, i, tree, todo
vars == <<id, ph, i, tree, todo>>
Traces == JsonDeserialize(IOEnv.TRACES)
R == Traces[id]

\* --- what a node looks like -----------------------------------------------------
\* facts about the path itself: kind, attributes v (size and metadata), name, target,
\* content c; attributes, contents and targets are numbered
Facts == R.facts
NodeOf(f) == [k |-> f.k, t |-> [abs |-> f.abs, cs |-> f.cs], v |-> f.v, c |-> f.c]
FactOk(f) == f.r = "ok" /\ (f.p # <<>> => f.nm = f.p[Len(f.p)])
\* a listing: its entries are in ascending order and say what their nodes are
EntryOk(l, j) == LET e == l.es[j] f == Facts[e.fact] IN
      /\ f.p = Append(l.p, e.n) /\ FactOk(f)
      /\ (j > 1 => l.es[j - 1].rank < e.rank)
      /\ e.k = f.k /\ e.dir = (f.k = "dir") /\ e.nm = e.n /\ e.v = f.v
\* what it adds
Grown(l) == [q \in DOMAIN tree \cup {Append(l.p, l.es[j].n) : j \in DOMAIN l.es} |->
              IF q \in DOMAIN tree THEN tree[q] ELSE NodeOf(Facts[l.es[CHOOSE j \in DOMAIN l.es : Append(l.p, l.es[j].n) = q].fact])]

\* --- what a question must be answered ------------------------------------------------
\* answers are about a path q: stat, lstat, open, read, list, link; r = "-": not asked
Told(r, want) == r = "-" \/ CASE want = "notexist" -> r = "notexist"
                              [] want = "error" -> r # "ok"
                              [] want = "any" -> TRUE
KidNames(p) == {q[Len(q)] : q \in Kids(tree, p)}
InfoOk(x, n, q, plain) == x.r = "-" \/ (x.r = "ok" /\ x.v = n.v /\ (plain => x.nm = q[Len(q)]))
AskOk(a) ==
  LET x == Prescribed(tree, a.q, TRUE)
      y == Prescribed(tree, a.q, FALSE)
      \* the name is that of the path asked for, unless a link stands there
      plain == a.q # <<>> /\ y.r = "ok" /\ tree[y.p].k # "link" IN
  /\ IF x.r # "ok"
     THEN /\ Told(a.stat.r, x.r) /\ Told(a.open.r, x.r) /\ Told(a.read.r, x.r)
          /\ Told(a.list.r, IF x.r = "any" THEN "any" ELSE "error")
     ELSE LET n == tree[x.p] IN
          /\ InfoOk(a.stat, n, a.q, plain)
          /\ InfoOk(a.open, n, a.q, plain)
          /\ (n.k = "file" /\ a.open.r # "-" => a.open.c = n.c)
          /\ (n.k = "file" /\ a.read.r # "-" => a.read.r = "ok" /\ a.read.c = n.c)
          /\ IF a.list.r = "-" THEN TRUE
             ELSE IF n.k # "dir" THEN a.list.r # "ok"
             ELSE /\ a.list.r = "ok" /\ Len(a.list.ns) = Cardinality(KidNames(x.p))
                  /\ {a.list.ns[j] : j \in DOMAIN a.list.ns} = KidNames(x.p)
  /\ IF y.r # "ok" THEN Told(a.lstat.r, y.r) /\ Told(a.link.r, y.r)
     ELSE LET n == tree[y.p] IN
          /\ InfoOk(a.lstat, n, a.q, plain)
          /\ a.link.r = "-" \/ IF n.k = "link" THEN a.link.r = "ok" /\ a.link.c = n.c ELSE a.link.r # "ok"

\* --- the acceptor -----------------------------------------------------------------
Init == /\ id \in 1..Len(Traces) /\ ph = "list" /\ i = 1 /\ todo = {<<>>}
        /\ tree = [p \in {<<>>} |-> NodeOf(Facts[1])]
On == i' = i + 1 /\ UNCHANGED <<id, ph>>
Go(p) == ph' = p /\ i' = 1 /\ UNCHANGED <<id, tree, todo>>
\* the record is refused here
No(where) == ph' = where /\ UNCHANGED <<id, i, tree, todo>>
ListOk(l) == l.p \in todo /\ l.r = "ok" /\ \A j \in DOMAIN l.es : EntryOk(l, j)
List == ph = "list" /\
  IF i > Len(R.lists)
  THEN IF todo = {} /\ Facts[1].p = <<>> /\ FactOk(Facts[1]) /\ tree[<<>>].k = "dir" THEN Go("walk") ELSE No("no root")
  ELSE LET l == R.lists[i] IN
       IF ListOk(l)
       THEN /\ tree' = Grown(l)
            /\ todo' = (todo \ {l.p}) \cup {Append(l.p, l.es[j].n) : j \in {j \in DOMAIN l.es : l.es[j].k = "dir"}}
            /\ On
       ELSE No("no list")
\* a walk visits every node once, a directory before its children
WalkOk == LET W == [n \in 0..Len(R.walk) |-> {R.walk[j] : j \in 1..n}] IN
          /\ R.walkok /\ W[Len(R.walk)] = DOMAIN tree /\ Len(R.walk) = Cardinality(DOMAIN tree)
          /\ \A n \in 1..Len(R.walk) : R.walk[n] # <<>> => Up(R.walk[n]) \in W[n - 1]
WalkStep == ph = "walk" /\ IF WalkOk THEN Go("ask") ELSE No("no walk")
\* questions are independent of each other: the first one answered otherwise refuses the record
Wrong == {j \in 1..Len(R.asks) : ~AskOk(R.asks[j])}
AskStep == ph = "ask" /\ LET w == Wrong IN IF w = {} THEN Go("done") ELSE ph' = "no ask" /\ i' = (CHOOSE j \in w : \A k \in w : j <= k) /\ UNCHANGED <<id, tree, todo>>
Spec == Init /\ [][List \/ WalkStep \/ AskStep]_vars
Emit == IF ph' = "done" /\ ph # "done" THEN EmitLine(ToString(id))
        ELSE IF ph' # ph /\ ph' \notin {"walk", "ask"} THEN EmitLine("!" \o ToString(id) \o " " \o ph' \o " " \o ToString(i')) ELSE TRUE
\* facts
TreeShaped == ph = "walk" => WellFormed(tree) /\ Own(tree)
=============================================================================
