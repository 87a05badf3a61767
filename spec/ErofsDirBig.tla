---------------------------- MODULE ErofsDirBig ----------------------------
(* Classes of large directories; membership is the answer, as in ErofsDir.  *)
EXTENDS Integers, Sequences, TLC, Json, LineOut
CONSTANTS Counts, Lens, Bits, Fills
VARIABLES c, done
Init == /\ c \in [count : Counts, len : Lens, bits : Bits, fill : Fills] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
Emit == EmitLine(ToJson(c))
=============================================================================
