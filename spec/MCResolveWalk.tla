--------------------------- MODULE MCResolveWalk ---------------------------
(* The walk as a behaviour: it always ends, stays inside the tree, and ends  *)
(* where the function Walk says.                                            *)
EXTENDS MCResolve
VARIABLES q, follow, s
wvars == <<tree, filled, done, q, follow, s>>
WSlots == << <<"l">>, <<"d", "m">> >>
WInit == /\ \E a \in Targets, b \in Targets :
              tree = [p \in DOMAIN MCPlain \cup {Slots[1], Slots[2]} |->
                        IF p = Slots[1] THEN Link(a) ELSE IF p = Slots[2] THEN Link(b) ELSE MCPlain[p]]
         /\ filled = 0 /\ done = FALSE
         /\ q \in Ask(tree, Depth) /\ follow \in BOOLEAN /\ s = Start(q)
WNext == s.st = "run" /\ s' = Step(tree, s, follow, Limit) /\ UNCHANGED <<tree, filled, done, q, follow>>
WSpec == WInit /\ [][WNext]_wvars /\ WF_wvars(WNext)
Ends == <>(s.st # "run")
Confined == s.cur \in DOMAIN tree /\ s.n <= Limit
Agrees == s.st # "run" => s = Walk(tree, q, follow)
\* every step uses up a link or a component
Measure(x) == <<Limit - x.n, Len(x.todo)>>
Uses == [][\/ s'.st # "run" \/ s'.n > s.n \/ (s'.n = s.n /\ Len(s'.todo) < Len(s.todo))]_wvars
=============================================================================
