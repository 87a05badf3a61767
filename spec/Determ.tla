-------------------------------- MODULE Determ --------------------------------
(* Things (archives, given by their bytes, and sources) that are asked over   *)
(* and over: reopened, from other handles, after other things have been       *)
(* opened and created, later, in another process.  What a thing answers is a  *)
(* function of the thing and the question; the acceptor keeps the first       *)
(* answer to every question and refuses any other one.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Things, Asks, Answers, Leak, Steps
VARIABLES memo,     \* question -> the answer given first
          agree,    \* no question has been answered in two ways
          truth,    \* what the things answer (unknown to the acceptor)
          hidden,   \* state that must not matter: [clock, proc, calls]
          n
vars == <<memo, agree, truth, hidden, n>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* question k is answered with a
Hear(k, a) == /\ agree' = (agree /\ (k \in DOMAIN memo => memo[k] = a))
              /\ memo' = (IF k \in DOMAIN memo THEN memo ELSE Put(memo, k, a))

\* --- a system whose answers may leak hidden state ---------------------------------
Init == /\ memo = << >> /\ agree = TRUE /\ truth \in [Things \X Asks -> Answers]
        /\ hidden = [clock |-> 0, proc |-> 0, last |-> "none"] /\ n = 0
Flip(a) == CHOOSE b \in Answers : b # a
Answer(t, k) == LET a == truth[<<t, k>>] IN
                CASE Leak = "clock" /\ hidden.clock = 1 -> Flip(a)
                  [] Leak = "proc" /\ hidden.proc = 1 -> Flip(a)
                  [] Leak = "last" /\ hidden.last \notin {"none", t} -> Flip(a)
                  [] OTHER -> a
Ask(t, k) == /\ n < Steps /\ Hear(<<t, k>>, Answer(t, k)) /\ hidden' = [hidden EXCEPT !.last = t] /\ n' = n + 1 /\ UNCHANGED truth
Env(h) == n < Steps /\ h # hidden /\ hidden' = h /\ n' = n + 1 /\ UNCHANGED <<memo, agree, truth>>
Next == \/ \E t \in Things, k \in Asks : Ask(t, k)
        \/ Env([hidden EXCEPT !.clock = 1]) \/ Env([hidden EXCEPT !.proc = 1, !.last = "none"])
Spec == Init /\ [][Next]_vars
\* the acceptor is right: a system without leaks is accepted, what it keeps is the truth
Accepted == Leak = "none" => agree /\ \A x \in DOMAIN memo : memo[x] = truth[x]
\* and a system that leaks is not always: to be violated when Leak is set
NeverRefused == agree
================================================================================
