------------------------------ MODULE ErofsDir ------------------------------
(* An EROFS directory: strictly ascending names, distributed over blocks,   *)
(* looked up by two binary searches (over the first names of the blocks,    *)
(* then inside one).  Names are numbers; Dot < DotDot are "." and "..",     *)
(* which have no special place in the order.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, LineOut
CONSTANTS N, Dot, DotDot
VARIABLES blocks, want, lo, hi, blk, phase, res
vars == <<blocks, want, lo, hi, blk, phase, res>>

Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
RECURSIVE SortSeq0(_)
SortSeq0(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSeq0(S \ {m})
RECURSIVE Cuts(_)
Cuts(s) == IF s = <<>> THEN {<<>>}
           ELSE UNION {{<<SubSeq(s, 1, k)>> \o r : r \in Cuts(SubSeq(s, k + 1, Len(s)))} : k \in 1..Len(s)}
Present(b) == UNION {{b[i][j] : j \in 1..Len(b[i])} : i \in 1..Len(b)}

\* the search as the format prescribes it (one comparison per step)
Init == /\ \E S \in SUBSET (1..N) : {Dot, DotDot} \subseteq S /\ blocks \in Cuts(SortSeq0(S))
        /\ want \in 1..N
        /\ lo = 1 /\ hi = Len(blocks) /\ blk = 0 /\ phase = "blocks" /\ res = 0
Mid == (lo + hi) \div 2
Blocks == /\ phase = "blocks"
          /\ IF lo > hi
             THEN IF blk = 0 THEN phase' = "absent" /\ UNCHANGED <<lo, hi, blk, res>>
                  ELSE phase' = "names" /\ lo' = 2 /\ hi' = Len(blocks[blk]) /\ UNCHANGED <<blk, res>>
             ELSE LET first == blocks[Mid][1] IN
                  IF want = first THEN phase' = "found" /\ res' = first /\ UNCHANGED <<lo, hi, blk>>
                  ELSE IF want > first THEN blk' = Mid /\ lo' = Mid + 1 /\ UNCHANGED <<hi, phase, res>>
                  ELSE hi' = Mid - 1 /\ UNCHANGED <<lo, blk, phase, res>>
Names == /\ phase = "names"
         /\ IF lo > hi THEN phase' = "absent" /\ UNCHANGED <<lo, hi, res>>
            ELSE LET x == blocks[blk][Mid] IN
                 IF want = x THEN phase' = "found" /\ res' = x /\ UNCHANGED <<lo, hi>>
                 ELSE IF want > x THEN lo' = Mid + 1 /\ UNCHANGED <<hi, phase, res>>
                 ELSE hi' = Mid - 1 /\ UNCHANGED <<lo, phase, res>>
         /\ UNCHANGED blk
Next == (Blocks \/ Names) /\ UNCHANGED <<blocks, want>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* looking up succeeds exactly for what is stored
Right == /\ phase = "found" => res = want /\ want \in Present(blocks)
         /\ phase = "absent" => want \notin Present(blocks)
Ends == <>(phase \in {"found", "absent"})

\* one case per directory (emitted with the first name asked for)
Emit == IF phase = "blocks" /\ want = 1 /\ lo = 1 /\ hi = Len(blocks) /\ blk = 0
        THEN EmitLine(ToJson([n |-> N, dot |-> Dot, dotdot |-> DotDot, blocks |-> blocks]))
        ELSE TRUE
=============================================================================
