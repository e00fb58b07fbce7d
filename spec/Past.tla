------------------------------- MODULE Past -------------------------------
(* What a layer remembers of the calls it got: its most recent forward pass *)
(* that was accepted (now: what there is to remember of it), nothing when   *)
(* it was loaded from its saved form, and what it was before after anything *)
(* else.  fits: are the arguments of the call such that it has to succeed.  *)
(* PastProof has what holds after any calls.                                *)

Passes == {"fwd", "nodrop"}
PastAfter(past, e, fits, now, none) ==
  IF e.op = "reload" /\ e.st = "ok" THEN none
  ELSE IF e.op \in Passes /\ e.st = "ok" /\ fits THEN now
  ELSE past
=============================================================================
