------------------------------ MODULE Resolve ------------------------------
(* Resolution of a path through symbolic links, as on a Unix filesystem.    *)
(* A tree maps paths (sequences of names) to nodes [k, t]; k is "dir",      *)
(* "file" or "link", t = [abs, cs] the target of a link: whether it starts  *)
(* with a slash, and its components ("" and "." mean nothing, ".." the      *)
(* parent).                                                                 *)
EXTENDS Sequences, Integers, FiniteSets
CONSTANT Limit  \* links that are followed on the way of one path

Up(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
IsDir(tree, p) == tree[p].k = "dir"
Kids(tree, p) == {q \in DOMAIN tree : q # <<>> /\ Up(q) = p}
WellFormed(tree) == <<>> \in DOMAIN tree /\ \A p \in DOMAIN tree : Up(p) \in DOMAIN tree /\ IsDir(tree, Up(p))

\* a target with nothing in it leads nowhere
Blank(t) == ~t.abs /\ \A j \in DOMAIN t.cs : t.cs[j] = ""

\* One component.  cur: the node reached, todo: what remains, n: links followed, st: how it ended.
Start(q) == [cur |-> <<>>, todo |-> q, n |-> 0, st |-> "run"]
End(s, how) == [s EXCEPT !.st = how]
Step(tree, s, follow, limit) ==
  IF s.todo = <<>> THEN End(s, "ok")
  ELSE IF ~IsDir(tree, s.cur) THEN End(s, "notdir")
  ELSE LET h == Head(s.todo)
           rest == Tail(s.todo)
           p == Append(s.cur, h) IN
       IF h \in {"", "."} THEN [s EXCEPT !.todo = rest]
       ELSE IF h = ".." THEN [s EXCEPT !.cur = Up(s.cur), !.todo = rest]
       ELSE IF p \notin DOMAIN tree THEN End(s, "notexist")
       ELSE IF tree[p].k = "link" /\ (rest # <<>> \/ follow)
            THEN IF s.n = limit THEN End(s, "loop")
                 ELSE IF Blank(tree[p].t) THEN End(s, "notexist")
                 ELSE [s EXCEPT !.n = @ + 1, !.cur = IF tree[p].t.abs THEN <<>> ELSE @, !.todo = tree[p].t.cs \o rest]
            ELSE [s EXCEPT !.cur = p, !.todo = rest]
RECURSIVE Run(_, _, _, _)
Run(tree, s, follow, limit) == IF s.st # "run" THEN s ELSE Run(tree, Step(tree, s, follow, limit), follow, limit)
Walk(tree, q, follow) == Run(tree, Start(q), follow, Limit)

\* What a caller may see: more than Limit links without a cycle may or may not resolve.
Far == 4 * Limit + 20
Prescribed(tree, q, follow) ==
  LET w == Walk(tree, q, follow) IN
  CASE w.st = "ok" -> [r |-> "ok", p |-> w.cur]
    [] w.st = "notexist" -> [r |-> "notexist", p |-> <<>>]
    [] w.st = "notdir" -> [r |-> "error", p |-> <<>>]
    [] w.st = "loop" -> [r |-> IF Run(tree, Start(q), follow, Far).st = "loop" THEN "error" ELSE "any", p |-> <<>>]

\* The paths worth asking: everything visible down to a depth, also through links, and one name that is not there.
RECURSIVE Ask(_, _)
Ask(tree, n) == IF n = 0 THEN {<<>>}
                ELSE LET prev == Ask(tree, n - 1) IN
                     prev \cup UNION {LET w == Walk(tree, q, TRUE) IN
                                      IF w.st = "ok" /\ IsDir(tree, w.cur)
                                      THEN {Append(q, k[Len(k)]) : k \in Kids(tree, w.cur)} \cup {Append(q, "zz")}
                                      ELSE {Append(q, "zz")} : q \in {x \in prev : Len(x) = n - 1 /\ (Len(x) < 2 \/ x[Len(x)] # "zz")}}

-----------------------------------------------------------------------------
\* Facts about the specification, checked on every generated tree.
Own(tree) == \A p \in DOMAIN tree : LET w == Walk(tree, p, FALSE) IN w.st = "ok" /\ w.cur = p
OkIsThere(tree, Q) == \A q \in Q : \A f \in BOOLEAN :
     LET w == Walk(tree, q, f) IN w.st = "ok" => w.cur \in DOMAIN tree /\ (f => tree[w.cur].k # "link")
OnlyLast(tree, Q) == \A q \in Q : LET a == Walk(tree, q, TRUE) b == Walk(tree, q, FALSE) IN
     (b.st = "ok" /\ tree[b.cur].k # "link") => a.st = "ok" /\ a.cur = b.cur
\* resolving a path is resolving its directory, then the last name from there
Compose(tree, Q) == \A q \in Q : q # <<>> =>
     LET a == Walk(tree, Up(q), TRUE) b == Walk(tree, q, FALSE) IN
     IF a.st = "ok" /\ IsDir(tree, a.cur)
     THEN IF Append(a.cur, q[Len(q)]) \in DOMAIN tree THEN b.st = "ok" /\ b.cur = Append(a.cur, q[Len(q)]) ELSE b.st = "notexist"
     ELSE b.st # "ok"
\* a link stands for its target seen from the directory that really holds it
Stands(tree, Q) == \A q \in Q : LET b == Walk(tree, q, FALSE) IN
     (b.st = "ok" /\ tree[b.cur].k = "link" /\ ~Blank(tree[b.cur].t)) =>
        LET a == Walk(tree, q, TRUE)
            t == tree[b.cur].t
            d == Walk(tree, (IF t.abs THEN <<>> ELSE Up(b.cur)) \o t.cs, TRUE) IN
        (a.st # "loop" /\ d.st # "loop") => a.st = d.st /\ (a.st = "ok" => a.cur = d.cur)
==============================================================================
