------------------------------- MODULE Creation -------------------------------
(* Creating an archive, seen as a conversation between the creator and an    *)
(* environment (source filesystem and destination) in which any call may     *)
(* fail, and a file may deliver more or fewer units than the source stated.  *)
(* The rules say when the creator may claim success: it must have been told  *)
(* everything, by calls that succeeded, and it must have seen every file     *)
(* end where it was said to end.  A creator that has not asked cannot know.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Paths, RootPath   \* of the small trees below
VARIABLES fmt,     \* format that is created
          node,    \* path -> [k, up, n, d]: kind, parent, stated size, delivered size
          listed, seen, linked,   \* what the creator has been told
          hs,      \* open handles: id -> [p, pos, end]
          whole,   \* files that one handle has read to the end
          lied,    \* the creator has seen a size to be wrong
          failed,  \* a call has failed
          out      \* "run", "ok", "error"
vars == <<fmt, node, listed, seen, linked, hs, whole, lied, failed, out>>

Of(k) == {p \in DOMAIN node : node[p].k = k}
Nodes == DOMAIN node \ {RootPath}
\* what must be known before success may be claimed
Needed == /\ Of("dir") \subseteq listed
          /\ Nodes \subseteq seen
          /\ Of("link") \subseteq linked
          /\ Of("file") \subseteq whole
          /\ fmt = "erofs" => RootPath \in seen

Run == out = "run"
Told(ok) == failed' = (failed \/ ~ok)
List(p, ok) == /\ Run /\ p \in Of("dir") /\ listed' = (IF ok THEN listed \cup {p} ELSE listed) /\ Told(ok)
               /\ UNCHANGED <<fmt, node, seen, linked, hs, whole, lied, out>>
Examine(p, ok) == /\ Run /\ p \in DOMAIN node /\ seen' = (IF ok THEN seen \cup {p} ELSE seen) /\ Told(ok)
                  /\ UNCHANGED <<fmt, node, listed, linked, hs, whole, lied, out>>
ReadLink(p, ok) == /\ Run /\ p \in Of("link") /\ linked' = (IF ok THEN linked \cup {p} ELSE linked) /\ Told(ok)
                   /\ UNCHANGED <<fmt, node, listed, seen, hs, whole, lied, out>>
Open(p, h, ok) == /\ Run /\ p \in DOMAIN node /\ h \notin DOMAIN hs
                  /\ hs' = (IF ok THEN [x \in DOMAIN hs \cup {h} |-> IF x = h THEN [p |-> p, pos |-> 0, end |-> FALSE] ELSE hs[x]] ELSE hs)
                  /\ Told(ok) /\ UNCHANGED <<fmt, node, listed, seen, linked, whole, lied, out>>
\* n units are delivered, then the end is (eof) or a failure is (~ok) reported
Read(h, n, eof, ok) == /\ Run /\ h \in DOMAIN hs
                       /\ LET x == hs[h]
                              f == node[x.p]
                              q == x.pos + n IN
                          /\ f.k = "file" /\ q <= f.d /\ (eof => q = f.d)
                          /\ hs' = [hs EXCEPT ![h] = [x EXCEPT !.pos = q, !.end = eof]]
                          /\ whole' = (IF eof /\ q = f.n THEN whole \cup {x.p} ELSE whole)
                          /\ lied' = (lied \/ q > f.n \/ (eof /\ q < f.n))
                       /\ Told(ok) /\ UNCHANGED <<fmt, node, listed, seen, linked, out>>
Close(h) == /\ Run /\ hs' = [x \in DOMAIN hs \ {h} |-> hs[x]]
            /\ UNCHANGED <<fmt, node, listed, seen, linked, whole, lied, failed, out>>
Write(ok) == /\ Run /\ Told(ok) /\ UNCHANGED <<fmt, node, listed, seen, linked, hs, whole, lied, out>>
Succeed == /\ Run /\ Needed /\ ~failed /\ ~lied /\ out' = "ok"
           /\ UNCHANGED <<fmt, node, listed, seen, linked, hs, whole, lied, failed>>
Fail == /\ Run /\ (failed \/ lied) /\ out' = "error"
        /\ UNCHANGED <<fmt, node, listed, seen, linked, hs, whole, lied, failed>>

\* nothing stays open
Tidy == hs = << >>

\* --- any creator, any environment, on small trees -------------------------------
Kinds == [Paths \ {RootPath} -> {"file", "link", "dir"}]
Init == /\ fmt \in {"tar", "ar", "erofs"}
        /\ \E k \in Kinds, n \in [Paths \ {RootPath} -> 0..1], d \in [Paths \ {RootPath} -> 0..2] :
             node = [p \in Paths |-> IF p = RootPath THEN [k |-> "dir", n |-> 0, d |-> 0]
                                     ELSE [k |-> k[p], n |-> IF k[p] = "file" THEN n[p] ELSE 0, d |-> IF k[p] = "file" THEN d[p] ELSE 0]]
        /\ listed = {} /\ seen = {} /\ linked = {} /\ hs = << >> /\ whole = {} /\ lied = FALSE /\ failed = FALSE /\ out = "run"
Next == \/ \E p \in Paths, ok \in BOOLEAN : List(p, ok) \/ Examine(p, ok) \/ ReadLink(p, ok) \/ Open(p, 1, ok)
        \/ \E n \in 0..2, eof, ok \in BOOLEAN : (eof => ok) /\ Read(1, n, eof, ok)
        \/ (1 \in DOMAIN hs /\ Close(1)) \/ \E ok \in BOOLEAN : Write(ok)
        \/ Succeed \/ Fail
Spec == Init /\ [][Next]_vars

\* --- facts ----------------------------------------------------------------------
\* success is only claimed for a source that was what it said, and when nothing has failed
Honest == out = "ok" => ~failed /\ \A p \in Of("file") : node[p].d = node[p].n
\* what has been seen to be wrong is wrong
LiedIsTrue == lied => \E p \in Of("file") : node[p].d # node[p].n
\* an error is only claimed with a reason
Reason == out = "error" => failed \/ \E p \in Of("file") : node[p].d # node[p].n
WholeIsWhole == \A p \in whole : node[p].d = node[p].n
\* a creation can always end
CanEnd == out = "run" => (failed \/ ENABLED Next)
================================================================================
