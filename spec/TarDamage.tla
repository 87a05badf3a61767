-------------------------- MODULE TarDamage --------------------------
(* Damaged archives: one fault in a well-formed archive, with what opening *)
(* must do: refuse, or present exactly the entries before the damage.      *)
EXTENDS TarGen
VARIABLE fault
dvars == <<gvars, fault>>

None == [f |-> "none"]
Faults == {[f |-> "cut", at |-> i, where |-> w] : i \in 1..Len(es), w \in {"hdr", "data", "pad", "ext", "after"}}
          \cup {[f |-> x, at |-> i, where |-> "hdr"] : i \in 1..Len(es), x \in {"flip", "type"}}
Possible(x) == LET k == es[x.at].k IN
               /\ (x.where \in {"data", "pad"} => k \in {"reg", "global"})
               /\ (x.f = "type" => k \in {"reg", "dir", "sym", "hard"})

Before(n) == Meaning(SubSeq(es, 1, n))
Verdict(x) ==
    CASE x.f = "cut" /\ x.where \in {"hdr", "data"} -> [r |-> "refuse", tree |-> {}]
      [] x.f = "cut" /\ x.where = "after" -> Before(x.at)
      \* the content is complete, only its padding is not; or nothing but an extension of the next entry is there
      [] x.f = "cut" /\ x.where = "pad" -> IF Before(x.at).r = "ok" THEN [Before(x.at) EXCEPT !.r = "maybe"] ELSE Before(x.at)
      [] x.f = "cut" /\ x.where = "ext" -> IF Before(x.at - 1).r = "ok" THEN [Before(x.at - 1) EXCEPT !.r = "maybe"] ELSE Before(x.at - 1)
      [] OTHER -> [r |-> "refuse", tree |-> {}]

DInit == GInit /\ fault = None
DNext == \/ Append1 /\ UNCHANGED fault
         \/ /\ fault = None /\ es # <<>>
            /\ \E x \in Faults : Possible(x) /\ Verdict(x).r # "any" /\ fault' = x
            /\ done' = TRUE /\ UNCHANGED <<es, tab>>
DSpec == DInit /\ [][DNext]_dvars
DSimNext == \/ AppendRandom /\ UNCHANGED fault
            \/ /\ fault = None /\ Len(es) = MaxEntries
               /\ \E x \in {y \in {RandomElement(Faults)} : Possible(y) /\ Verdict(y).r # "any"} : fault' = x
               /\ done' = TRUE /\ UNCHANGED <<es, tab>>
DSimSpec == DInit /\ [][DSimNext]_dvars

DEmit == IF fault' # fault
         THEN LET v == Verdict(fault') IN
              EmitLine(ToJson([es |-> es, open |-> v.r, tree |-> v.tree,
                  fault |-> [f |-> fault'.f, at |-> fault'.at, where |-> fault'.where, tree |-> v.tree]]))
         ELSE TRUE
\* damage never adds anything: what a cut archive opens to is a prefix of what was written
NothingInvented == (fault # None /\ Verdict(fault).r \in {"ok", "maybe"}) =>
    \A n \in Verdict(fault).tree : n.i <= fault.at
=======================================================================
