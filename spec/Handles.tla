------------------------------- MODULE Handles -------------------------------
(* Handles on the files of opened archives.  Everything is read-only, so a   *)
(* handle's answers depend on its own file and position alone: not on other  *)
(* handles, other openings of the same bytes, nor on how many bytes are      *)
(* asked for at a time.  The reader below may break at one unit of one file: *)
(* a read that needs it must say so, any other read delivers the right bytes *)
(* or says so as well.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, LineOut
CONSTANTS Files, Lens,     \* files have these many units
          Handles, Systems, Sizes, Faults, MaxLen, EmitAll
VARIABLES len, hs, bad, hist, done
vars == <<len, hs, bad, hist, done>>
View == <<len, hs, bad, done>>
Min(a, b) == IF a < b THEN a ELSE b

Closed == [st |-> "no", f |-> "", pos |-> 0]
Fine == [f |-> "", u |-> 0]
Init == /\ len \in [Files -> Lens]
        /\ hs = [h \in Handles |-> Closed] /\ bad = Fine /\ hist = <<>> /\ done = FALSE

Hits(f, a, n) == bad.f = f /\ a <= bad.u /\ bad.u < a + n
\* what a read of n units gives at position a of file f
Outcome(f, a, n) == CASE Hits(f, a, Min(n, len[f] - a)) -> "error"
                      [] bad # Fine -> "maybe"
                      [] OTHER -> "ok"
Log(c) == hist' = Append(hist, c) /\ UNCHANGED <<len, done>>
Call(op, h, f, s, n, r, off, k, eof) == [op |-> op, h |-> h, f |-> f, s |-> s, n |-> n, r |-> r, off |-> off, len |-> k, eof |-> eof]

Open(h, f, s) == /\ hs[h].st = "no"
                 /\ hs' = [hs EXCEPT ![h] = [st |-> "open", f |-> f, pos |-> 0]]
                 /\ Log(Call("open", h, f, s, 0, IF bad = Fine THEN "ok" ELSE "maybe", 0, len[f], FALSE)) /\ UNCHANGED bad
Read(h, n) == /\ hs[h].st = "open"
              /\ LET x == hs[h]
                     k == Min(n, len[x.f] - x.pos)
                     r == Outcome(x.f, x.pos, n) IN
                 /\ hs' = [hs EXCEPT ![h] = IF r = "error" THEN [x EXCEPT !.st = "lost"] ELSE [x EXCEPT !.pos = x.pos + k]]
                 /\ Log(Call("read", h, x.f, "", n, r, x.pos, k, n > 0 /\ k < n))
              /\ UNCHANGED bad
\* to the end
Drain(h) == /\ hs[h].st = "open"
            /\ LET x == hs[h]
                   k == len[x.f] - x.pos
                   r == Outcome(x.f, x.pos, k) IN
               /\ hs' = [hs EXCEPT ![h] = IF r = "error" THEN [x EXCEPT !.st = "lost"] ELSE [x EXCEPT !.pos = len[x.f]]]
               /\ Log(Call("drain", h, x.f, "", 0, r, x.pos, k, TRUE))
            /\ UNCHANGED bad
Stat(h) == /\ hs[h].st \in {"open", "lost"}
           /\ Log(Call("fstat", h, hs[h].f, "", 0, IF bad = Fine THEN "ok" ELSE "maybe", 0, len[hs[h].f], FALSE)) /\ UNCHANGED <<hs, bad>>
Close(h) == /\ hs[h].st \in {"open", "lost"}
            /\ hs' = [hs EXCEPT ![h] = Closed]
            /\ Log(Call("close", h, hs[h].f, "", 0, "ok", 0, 0, FALSE)) /\ UNCHANGED bad
\* a question to the filesystem
Ask(f, s) == /\ Log(Call("stat", "", f, s, 0, IF bad = Fine THEN "ok" ELSE "maybe", 0, len[f], FALSE)) /\ UNCHANGED <<hs, bad>>
Break(f) == /\ Faults /\ bad = Fine /\ len[f] > 0
            /\ \E u \in 0..len[f] - 1 : bad' = [f |-> f, u |-> u] /\ Log(Call("break", "", f, "", u, "ok", 0, 0, FALSE))
            /\ UNCHANGED hs
Mend == bad # Fine /\ bad' = Fine /\ Log(Call("mend", "", "", "", 0, "ok", 0, 0, FALSE)) /\ UNCHANGED hs
Finish == ~EmitAll /\ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<len, hs, bad, hist>>

Op == /\ Len(hist) < MaxLen
      /\ \/ \E h \in Handles : \/ \E f \in Files, s \in Systems : Open(h, f, s)
                               \/ \E n \in Sizes : Read(h, n)
                               \/ Drain(h) \/ Stat(h) \/ Close(h)
         \/ \E f \in Files, s \in Systems : Ask(f, s)
         \/ \E f \in Files : Break(f)
         \/ Mend
Spec == Init /\ [][Op \/ Finish]_vars
Emit == IF (EmitAll /\ hist' # hist) \/ (done' /\ ~done)
        THEN EmitLine(ToJson([len |-> len, h |-> hist'])) ELSE TRUE

\* --- facts ------------------------------------------------------------------------
TypeOK == \A h \in Handles : hs[h].st # "no" => hs[h].pos \in 0..len[hs[h].f]
\* what a handle delivers between its opening and its closing is consecutive, and does not
\* depend on anything else that happens
Own(h) == SelectSeq(hist, LAMBDA c : c.h = h)
Consecutive == \A h \in Handles : LET s == Own(h) IN
    \A i \in 1..Len(s) - 1 : (s[i + 1].op \in {"read", "drain"} /\ s[i].op \in {"open", "read", "drain"} /\ s[i].r # "error") =>
        s[i + 1].off = (IF s[i].op = "open" THEN 0 ELSE s[i].off + s[i].len)
\* end of file is reported at the end only
EndOnly == \A i \in 1..Len(hist) : hist[i].eof => hist[i].off + hist[i].len = len[hist[i].f]
================================================================================
