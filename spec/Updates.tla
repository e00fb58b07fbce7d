------------------------------ MODULE Updates ------------------------------
(* Updates of named parameters (s.p) by named optimizers (s.o).  Ok(o, p, e): *)
(* does update e fit optimizer o and parameters p; Step(o, e): the optimizer *)
(* after it.  UpdatesProof has what holds whatever these are.                *)

UpdateOf(s, e, Ok(_, _, _), Step(_, _)) ==
  IF e.st = "ok" /\ Ok(s.o[e.o], s.p[e.p], e)
  THEN [o |-> [s.o EXCEPT ![e.o] = Step(@, e)], p |-> [s.p EXCEPT ![e.p] = [W |-> e.W, B |-> e.B]]]
  ELSE s
=============================================================================
