---------------------------- MODULE MemFs ----------------------------
(* The in-memory filesystem (memfs): a mutable tree with the operations *)
(* MkdirAll, WriteFile, Open, Stat, ReadDir, Sub and open handles that   *)
(* are snapshots with their own cursor.                                 *)
(*                                                                      *)
(* Every operation is a function of the current state returning the new  *)
(* tree and a result; the sequential specification (this module's Next)  *)
(* and the linearizability specification (MemFsHist) share them.         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS
    Paths,        \* paths operations are applied to: sequences of names, <<>> is the root
    BadPaths,     \* tokens for syntactically invalid paths
    Datas,        \* content tokens
    DLen,         \* content token -> length in units
    FPerms,       \* permission tokens for files
    DPerms,       \* permission tokens for directories
    Handles,      \* handle names
    ReadSizes,    \* sizes of reads in units
    DirSizes,     \* batch sizes of directory reads (99 stands for "all": n <= 0)
    Ops           \* names of the operations this configuration explores

VARIABLES
    tree,         \* path -> node; the domain is prefix closed and contains <<>>
    hs            \* handle -> handle state

----------------------------------------------------------------------
RootPerm == "root"
IsBad(p) == p \in BadPaths
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]
PathPrefixes(p) == {SubSeq(p, 1, i) : i \in 0..Len(p)}
FileNode(d, perm) == [k |-> "file", d |-> d, perm |-> perm]
DirNode(perm) == [k |-> "dir", d |-> "", perm |-> perm]
Has(t, p) == p \in DOMAIN t
IsDirAt(t, p) == Has(t, p) /\ t[p].k = "dir"
IsFileAt(t, p) == Has(t, p) /\ t[p].k = "file"
Children(t, p) == {q[Len(q)] : q \in {r \in DOMAIN t : Len(r) = Len(p) + 1 /\ SubSeq(r, 1, Len(p)) = p}}
InitTree == [p \in {<<>>} |-> DirNode(RootPerm)]
Extend(t, p, n) == [q \in DOMAIN t \cup {p} |-> IF q = p THEN n ELSE t[q]]

\* What Stat (and a listing's Info) says about a node: the root is named ".".
StatOf(t, p) == [r |-> "ok", k |-> t[p].k, perm |-> t[p].perm, d |-> t[p].d,
                 name |-> IF p = <<>> THEN "." ELSE Base(p)]

----------------------------------------------------------------------
(* Operations: [t |-> new tree, res |-> result] *)

DoMkdirAll(t, p, perm) ==
    IF IsBad(p) THEN [t |-> t, res |-> [r |-> "invalid"]]
    ELSE IF \E q \in PathPrefixes(p) : IsFileAt(t, q) THEN [t |-> t, res |-> [r |-> "invalid"]]
    ELSE [t |-> [q \in DOMAIN t \cup PathPrefixes(p) |-> IF Has(t, q) THEN t[q] ELSE DirNode(perm)],
          res |-> [r |-> "ok"]]

\* One component of MkdirAll: what happens atomically in a concurrent execution.
DoMkdir(t, q, perm) ==
    IF IsFileAt(t, q) THEN [t |-> t, res |-> [r |-> "invalid"]]
    ELSE [t |-> IF Has(t, q) THEN t ELSE Extend(t, q, DirNode(perm)), res |-> [r |-> "ok"]]

DoWriteFile(t, p, d, perm) ==
    IF IsBad(p) \/ p = <<>> THEN [t |-> t, res |-> [r |-> "invalid"]]
    ELSE IF ~IsDirAt(t, Parent(p)) THEN [t |-> t, res |-> [r |-> "notexist"]]
    ELSE IF IsDirAt(t, p) THEN [t |-> t, res |-> [r |-> "exist"]]
    ELSE [t |-> Extend(t, p, FileNode(d, IF Has(t, p) THEN t[p].perm ELSE perm)), res |-> [r |-> "ok"]]

DoStat(t, p) ==
    [t |-> t, res |-> IF IsBad(p) THEN [r |-> "invalid"]
                      ELSE IF ~Has(t, p) THEN [r |-> "notexist"]
                      ELSE StatOf(t, p)]

DoReadFile(t, p) ==
    [t |-> t, res |-> IF IsBad(p) THEN [r |-> "invalid"]
                      ELSE IF ~Has(t, p) THEN [r |-> "notexist"]
                      ELSE IF IsDirAt(t, p) THEN [r |-> "error"]
                      ELSE StatOf(t, p)]

\* A listing: what is known about each child, in the order of the names.
Listing(t, p) == {StatOf(t, Append(p, c)) : c \in Children(t, p)}
DoReadDir(t, p) ==
    [t |-> t, res |-> IF IsBad(p) THEN [r |-> "invalid"]
                      ELSE IF ~Has(t, p) THEN [r |-> "notexist"]
                      ELSE IF ~IsDirAt(t, p) THEN [r |-> "error"]
                      ELSE [r |-> "ok", list |-> Listing(t, p)]]

\* Sub: the tree below a directory (its root keeps no name of its own).
DoSub(t, p) ==
    [t |-> t, res |-> IF ~IsDirAt(t, p) THEN [r |-> "notexist"]
                      ELSE [r |-> "ok", sub |-> {[p |-> SubSeq(q, Len(p) + 1, Len(q)), k |-> t[q].k, d |-> t[q].d, perm |-> t[q].perm] :
                               q \in {r \in DOMAIN t : Len(r) > Len(p) /\ SubSeq(r, 1, Len(p)) = p}}]]

----------------------------------------------------------------------
(* Handles *)
NoHandle == [st |-> "none"]
FileHandle(n, nm) == [st |-> "file", d |-> n.d, perm |-> n.perm, pos |-> 0, closed |-> FALSE, name |-> nm]
DirHandle(p) == [st |-> "dir", p |-> p, started |-> FALSE, rest |-> <<>>]

Least(a, b) == IF a < b THEN a ELSE b

\* Reading n units at the cursor: the bytes [off, off+len) of content d; eof iff something was asked for and nothing left.
ReadRes(h, n) == LET m == Least(n, DLen[h.d] - h.pos) IN
    [r |-> "ok", d |-> h.d, off |-> h.pos, len |-> m, eof |-> (m < n)]


----------------------------------------------------------------------
(* The sequential specification. Each action also yields the event (operation, arguments, result) in ev. *)

Call(op, args, res) == [op |-> op, a |-> args, res |-> res]

\* what can happen to the paths P with the operations O
MutatorsOn(t, P, O) ==
    {[c |-> Call("mkdir", [p |-> p, perm |-> m], x.res), t |-> x.t] :
        <<p, m, x>> \in {<<p, m, DoMkdirAll(t, p, m)>> : p \in IF "mkdir" \in O THEN P ELSE {}, m \in DPerms}}
    \cup
    {[c |-> Call("write", [p |-> p, d |-> d, perm |-> m], x.res), t |-> x.t] :
        <<p, d, m, x>> \in {<<p, d, m, DoWriteFile(t, p, d, m)>> : p \in IF "write" \in O THEN P ELSE {}, d \in Datas, m \in FPerms}}

QueriesOn(t, P, O) ==
    {[c |-> Call("stat", [p |-> p], DoStat(t, p).res), t |-> t] : p \in IF "stat" \in O THEN P ELSE {}}
    \cup {[c |-> Call("readfile", [p |-> p], DoReadFile(t, p).res), t |-> t] : p \in IF "readfile" \in O THEN P ELSE {}}
    \cup {[c |-> Call("readdir", [p |-> p], DoReadDir(t, p).res), t |-> t] : p \in IF "readdir" \in O THEN P ELSE {}}
    \cup {[c |-> Call("sub", [p |-> p], DoSub(t, p).res), t |-> t] : p \in IF "sub" \in O THEN P \ BadPaths ELSE {}}

\* Handle operations: [c |-> call, h |-> new state of the handle]
HandleOpsOn(h, s, P, O) ==
    (IF "open" \in O /\ s.st = "none"
     THEN {[c |-> Call("open", [h |-> h, p |-> p], DoStat(tree, p).res),
            h |-> IF IsFileAt(tree, p) THEN FileHandle(tree[p], Base(p))
                  ELSE IF IsDirAt(tree, p) THEN DirHandle(p) ELSE NoHandle] : p \in P \ BadPaths}
     ELSE {})
    \cup
    (IF "read" \in O /\ s.st = "file"
     THEN {[c |-> Call("read", [h |-> h, n |-> n], IF s.closed THEN [r |-> "closed"] ELSE ReadRes(s, n)),
            h |-> IF s.closed THEN s ELSE [s EXCEPT !.pos = @ + Least(n, DLen[s.d] - @)]] : n \in ReadSizes}
     ELSE {})
    \cup
    (IF "fstat" \in O /\ s.st = "file"
     THEN {[c |-> Call("fstat", [h |-> h], IF s.closed THEN [r |-> "closed"]
                  ELSE [r |-> "ok", k |-> "file", perm |-> s.perm, d |-> s.d, name |-> s.name]), h |-> s]}
     ELSE {})
    \cup
    (IF "close" \in O /\ s.st = "file"
     THEN {[c |-> Call("close", [h |-> h], [r |-> IF s.closed THEN "closed" ELSE "ok"]), h |-> [s EXCEPT !.closed = TRUE]]}
     ELSE {})
    \cup
    (IF "dirread" \in O /\ s.st = "dir"
     THEN {LET all == IF s.started THEN s.rest ELSE SetToSeq(Listing(tree, s.p))
               m == IF n = 99 THEN Len(all) ELSE Least(n, Len(all)) IN
           [c |-> Call("dirread", [h |-> h, n |-> n],
                       [r |-> "ok", n |-> m, first |-> ~s.started, all |-> all, eof |-> (n # 99 /\ Len(all) = 0)]),
            \* the order of names is the business of the implementation's byte order: only how many are left matters here
            h |-> [s EXCEPT !.started = TRUE, !.rest = SubSeq(all, m + 1, Len(all))]] : n \in DirSizes}
     ELSE {})

Mutators(t) == MutatorsOn(t, Paths \cup BadPaths, Ops)
Queries(t) == QueriesOn(t, Paths \cup BadPaths, Ops)
HandleOps(h, s) == HandleOpsOn(h, s, Paths \cup BadPaths, Ops)

Init == tree = InitTree /\ hs = [h \in Handles |-> NoHandle]

TreeStep(c) == \E x \in Mutators(tree) \cup Queries(tree) : tree' = x.t /\ c = x.c /\ UNCHANGED hs
HandleStep(c) == \E h \in Handles : \E x \in HandleOps(h, hs[h]) :
                    c = x.c /\ hs' = [hs EXCEPT ![h] = x.h] /\ UNCHANGED tree

----------------------------------------------------------------------
(* Properties of the design *)
PrefixClosed == \A p \in DOMAIN tree : p # <<>> => IsDirAt(tree, Parent(p))
TypeOK == <<>> \in DOMAIN tree /\ tree[<<>>].k = "dir" /\ PrefixClosed
SnapshotInv == \A h \in Handles : hs[h].st = "file" => hs[h].pos <= DLen[hs[h].d]
=======================================================================
