---------------------------------- MODULE Ar ----------------------------------
(* What an ar archive means: a reader that walks the bytes member by member. *)
(* Sizes and positions are real byte counts, so that every cut position of a *)
(* small archive has a prescribed outcome; names, metadata and contents are  *)
(* tokens, tied to the number of the member.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, LineOut
CONSTANTS NameToks,   \* "" is the nameless symbol table
          Sizes, Blanks, Styles, MaxMembers, MaxCut
VARIABLES ms,     \* members: [nm, st, sz, bl]
          fault,
          off, tab, out   \* the reader: position, table from names to member numbers, outcome
vars == <<ms, fault, off, tab, out>>

None == [f |-> "none", at |-> 0, x |-> "-"]
Magic == 8
Hdr == 60
Body(m) == m.sz + (m.sz % 2)
Span(m) == Hdr + Body(m)
RECURSIVE Start(_, _)
Start(s, i) == IF i = 1 THEN Magic ELSE Start(s, i - 1) + Span(s[i - 1])   \* position of member i's header
Total(s) == Start(s, Len(s) + 1)
Length == IF fault.f = "cut" THEN fault.at ELSE Total(ms)   \* bytes that are there

\* --- the reader ---------------------------------------------------------------
MemberAt(o) == CHOOSE i \in 1..Len(ms) : Start(ms, i) = o
Stop(r) == out' = r /\ UNCHANGED <<ms, fault, off, tab>>
HeaderFaults == {"term", "num", "neg", "slash", "beyond"}
ReadMagic == off = 0 /\ out = "reading" /\
             IF Length < Magic \/ fault.f = "magic" THEN Stop("refuse")
             ELSE off' = Magic /\ UNCHANGED <<ms, fault, tab, out>>
ReadMember ==
    /\ off > 0 /\ out = "reading"
    /\ IF Length <= off THEN Stop("ok")               \* also when only the last padding byte is absent
       ELSE IF Length < off + Hdr THEN Stop("refuse")
       ELSE LET i == MemberAt(off) IN
            IF fault.f \in HeaderFaults /\ fault.at = i THEN Stop("refuse")
            ELSE IF Length < off + Hdr + ms[i].sz THEN Stop("refuse")
            ELSE /\ off' = off + Span(ms[i])
                 /\ tab' = IF ms[i].nm = "" THEN tab ELSE [n \in DOMAIN tab \cup {ms[i].nm} |-> IF n = ms[i].nm THEN i ELSE tab[n]]
                 /\ UNCHANGED <<ms, fault, out>>

\* --- archives and faults --------------------------------------------------------
Member == {m \in [nm : NameToks, st : Styles, sz : Sizes, bl : Blanks] :
             /\ (m.bl \in {"size", "all"} => m.sz = 0) /\ (m.nm = "" => m.st = "slash") /\ (m.nm = "n16" => m.st = "plain")}
Faults == {[f |-> "cut", at |-> k, x |-> "-"] : k \in IF Total(ms) <= MaxCut THEN 0..Total(ms) - 1 ELSE {}}
          \cup {[f |-> "term", at |-> i, x |-> y] : i \in 1..Len(ms), y \in {"first", "second", "both", "swap"}}
          \cup {[f |-> "num", at |-> i, x |-> y] : i \in 1..Len(ms), y \in {"time", "uid", "gid", "mode", "size"}}
          \cup {[f |-> x, at |-> i, x |-> "-"] : x \in {"neg", "slash", "beyond"}, i \in 1..Len(ms)}
          \cup {[f |-> "magic", at |-> k, x |-> "-"] : k \in 0..Magic - 1}
Pick(S) == RandomElement(S)
Init == ms = <<>> /\ fault = None /\ off = 0 /\ tab = <<>> /\ out = "building"
Build == /\ out = "building" /\ Len(ms) < MaxMembers
         /\ \E m \in Member : ms' = Append(ms, m)
         /\ UNCHANGED <<fault, off, tab, out>>
Begin == /\ out = "building" /\ out' = "reading" /\ UNCHANGED <<ms, off, tab>>
         /\ fault' \in {None} \cup Faults
BuildRandom == /\ out = "building" /\ Len(ms) < MaxMembers
               /\ ms' = Append(ms, CHOOSE m \in {Pick({y \in Member : y.nm = x}) : x \in {Pick(NameToks)}} : TRUE)
               /\ UNCHANGED <<fault, off, tab, out>>
BeginRandom == /\ out = "building" /\ (Len(ms) = MaxMembers \/ Pick(1..6) = 1)
               /\ out' = "reading" /\ UNCHANGED <<ms, off, tab>>
               /\ fault' \in {IF Pick(1..2) = 1 THEN None ELSE Pick(Faults)}
Spec == Init /\ [][Build \/ Begin \/ ReadMagic \/ ReadMember]_vars /\ WF_vars(ReadMagic \/ ReadMember)
SimSpec == Init /\ [][BuildRandom \/ BeginRandom \/ ReadMagic \/ ReadMember]_vars

Emit == IF out' # out /\ out = "reading" THEN EmitLine(ToJson([ms |-> ms, fault |-> fault, r |-> out', tree |-> {[nm |-> n, i |-> tab[n]] : n \in DOMAIN tab}])) ELSE TRUE

\* --- facts ------------------------------------------------------------------------
Ends == (out = "reading") ~> (out # "reading")
Forward == [][out = "reading" => off' >= off]_vars
\* the declarative reading: the last of the members before the end decides
LastWins == (out = "ok" /\ fault = None) =>
    /\ DOMAIN tab = {ms[i].nm : i \in 1..Len(ms)} \ {""}
    /\ \A i \in 1..Len(ms) : ms[i].nm # "" => tab[ms[i].nm] >= i
Whole == (out = "ok" /\ fault = None) => off = Total(ms)
Sound == out = "ok" => \A n \in DOMAIN tab : Start(ms, tab[n]) + Hdr + ms[tab[n]].sz <= Length
Undamaged == (out = "refuse") => fault # None
\* a cut archive opens only at a member boundary (or before the padding there)
CutAtBoundary == (out = "ok" /\ fault.f = "cut") => \E i \in 1..Len(ms) + 1 :
    LET b == Start(ms, i) IN fault.at = b \/ (i > 1 /\ ms[i - 1].sz % 2 = 1 /\ fault.at = b - 1)
================================================================================
