-------------------------------- MODULE LineOut --------------------------------
(* One line of output (see LineOut.java).  CSVWrite interleaves long lines of  *)
(* several workers.                                                         *)
EXTENDS TLC
EmitLine(line) == Print(line, TRUE)
=============================================================================
