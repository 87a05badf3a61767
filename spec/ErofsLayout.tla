----------------------------- MODULE ErofsLayout -----------------------------
(* When an image obeys the on-disk format (want = "layout"), and when its    *)
(* superblock may be written (want = "order").  The records come from images *)
(* the real code created: what an independent decoder found in their bytes,  *)
(* and the writes that made them.  A record is accepted step by step:        *)
(* superblock, extents, inodes; or the writes in order, each of which may    *)
(* be the last one before a crash.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, LineOut, IOUtils
VARIABLES id, ph, k, cov
vars == <<id, ph, k, cov>>
Traces == JsonDeserialize(IOEnv.TRACES)
R == Traces[id]
SbFrom == 1024
SbTo == 1152
Bs == R.bs

\* --- geometry -------------------------------------------------------------------
\* extents are sorted by where they begin: [a, e, z, what, i]; z is e rounded up for data in blocks
SbOk == /\ R.magic /\ R.sumok /\ R.incompat = 0
        /\ R.bits \in 9..16 /\ Bs = 2 ^ R.bits
        /\ R.inodes = Len(R.nodes)
        /\ R.blocks * Bs >= SbTo
ExtentOk(n) == LET x == R.ext[n] IN
        /\ x.a < x.e /\ x.e <= x.z
        /\ x.e <= R.blocks * Bs
        /\ (n > 1 => R.ext[n - 1].z <= x.a)
\* inodes
Node(n) == R.nodes[n]
NodeOk(n) == LET x == Node(n) IN
        /\ x.off % 32 = 0 /\ x.off = R.meta * Bs + x.nidoff
        /\ x.form \in {"compact", "extended"} /\ x.layout \in {"plain", "inline"} /\ x.xattr = 0
        /\ x.kind \in {"dir", "file", "link"}
        /\ (x.layout = "inline" => /\ x.size % Bs # 0
                                   /\ x.off \div Bs = (x.off + x.isize + (x.size % Bs) - 1) \div Bs)
\* directories: entries of all blocks in order, names by their rank in byte order
Ascending(s) == \A i \in 1..Len(s) - 1 : s[i].rank < s[i + 1].rank
Dot(y) == y.name \in {".", ".."}
DirOk(n) == LET x == Node(n) IN x.kind # "dir" \/
        /\ Ascending(x.ents)
        /\ \E i \in 1..Len(x.ents) : x.ents[i].name = "." /\ x.ents[i].node = n
        /\ \E i \in 1..Len(x.ents) : x.ents[i].name = ".." /\ x.ents[i].node = x.parent
        /\ \A i \in 1..Len(x.ents) : LET y == x.ents[i] IN
              /\ y.node \in 1..Len(R.nodes)
              /\ y.type = Node(y.node).kind
              /\ (~Dot(y) /\ y.type = "dir" => Node(y.node).parent = n)
RootOk == Node(1).kind = "dir" /\ Node(1).parent = 1

\* --- writes and crashes -------------------------------------------------------------
\* cov: what has been written, as maximal intervals in order
Join(s, x) == LET before == SelectSeq(s, LAMBDA y : y.e < x.a)
                  after == SelectSeq(s, LAMBDA y : y.a > x.e)
                  touch == SelectSeq(s, LAMBDA y : ~(y.e < x.a) /\ ~(y.a > x.e))
                  lo == IF touch = <<>> THEN x.a ELSE IF touch[1].a < x.a THEN touch[1].a ELSE x.a
                  hi == IF touch = <<>> THEN x.e ELSE IF touch[Len(touch)].e > x.e THEN touch[Len(touch)].e ELSE x.e IN
              before \o <<[a |-> lo, e |-> hi]>> \o after
Covered(a, e) == \E i \in 1..Len(cov) : cov[i].a <= a /\ e <= cov[i].e
Complete == \A n \in 1..Len(R.ext) : R.ext[n].what = "sb" \/ Covered(R.ext[n].a, R.ext[n].e)
\* w.sb: this write leaves a superblock behind that readers recognise
WriteOk(w) == w.sb => Complete

Init == id \in 1..Len(Traces) /\ ph = (IF R.want = "order" THEN "write" ELSE "sb") /\ k = 1 /\ cov = <<>>
Go(p) == ph' = p /\ k' = 1 /\ UNCHANGED <<id, cov>>
On == k' = k + 1 /\ UNCHANGED <<id, ph, cov>>
Sb == ph = "sb" /\ (SbOk /\ RootOk) = TRUE /\ Go("ext")
Ext == ph = "ext" /\ IF k > Len(R.ext) THEN Go("node") ELSE ExtentOk(k) = TRUE /\ On
\* (compared with TRUE: TLC would evaluate conjuncts of an action by recursion, one level per entry)
Nodes == ph = "node" /\ IF k > Len(R.nodes) THEN Go("done") ELSE (NodeOk(k) /\ DirOk(k)) = TRUE /\ On
Write == ph = "write" /\ IF k > Len(R.writes) THEN Complete = TRUE /\ Go("done")
                         ELSE WriteOk(R.writes[k]) = TRUE /\ k' = k + 1 /\ cov' = Join(cov, R.writes[k]) /\ UNCHANGED <<id, ph>>
Spec == Init /\ [][Sb \/ Ext \/ Nodes \/ Write]_vars
Emit == IF ph' = "done" /\ ph # "done" THEN EmitLine(ToString(id)) ELSE TRUE
\* fact: intervals stay apart and in order
Intervals == \A i \in 1..Len(cov) - 1 : cov[i].e < cov[i + 1].a
================================================================================
