-------------------------------- MODULE Out --------------------------------
(* Writes the programs that a Gen module enumerates, one per line, to the   *)
(* file named by the environment variable OUT (java/Out.java).              *)
Line(s) == TRUE
=============================================================================
