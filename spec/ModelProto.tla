----------------------------- MODULE ModelProto -----------------------------
(* C12.  Every sequence of Depth0 building steps of a model: adding layers  *)
(* that fit or not, finalizing with losses that fit or not, valid or        *)
(* invalid precisions, and using the optimizers in between.                 *)
EXTENDS ModelSM, Rat, Json, Out
CONSTANTS Depth0
VARIABLES s, hist
pvars == <<s, hist>>

Sizes == {1, 2}
Adds == [op : {"add"}, in : Sizes, out : Sizes]
Fins == [op : {"fin"}, size : Sizes, neg : BOOLEAN, kind : {"sgd", "adam"}]
Uses == {[op |-> "use"]}
Sh(r, c) == [r |-> r, c |-> c, m |-> <<>>]
AddE(c) == [id |-> Len(hist) + 1, kind |-> "linear", in |-> c.in, out |-> c.out, par |-> N0, W |-> None, B |-> None]
FinE(c) == [lid |-> Len(hist) + 1, loss |-> "mse", size |-> c.size, kind |-> c.kind, acc |-> 0, prec |-> IF c.neg THEN NInt(-1) ELSE N1, h |-> [rate |-> N1, decay |-> N0, mom |-> N1, eps |-> N1, b1 |-> N0, b2 |-> N0]]

Init == s = ModelStart /\ hist = <<>>
Do(c) == /\ Len(hist) < Depth0
         /\ hist' = Append(hist, c)
         /\ s' = CASE c.op = "add" -> AfterAdd(s, AddE(c))
                   [] c.op = "fin" -> AfterFin(s, FinE(c))
                   [] c.op = "use" -> [s EXCEPT !.opts = [i \in DOMAIN @ |-> [@[i] EXCEPT !.t = @ + 1]]]
Next == \E c \in Adds \cup Fins \cup Uses : Do(c)

\* The layers of a model always chain.
Chains == \A i \in 1 .. Depth(s) - 1 : s.lay[i].out = s.lay[i + 1].in
InOrder == \A i, j \in 1 .. Depth(s) : i < j => s.lay[i].id < s.lay[j].id
\* A finalized model has an optimizer for every layer that it had then.
Optimizers == Finalized(s) => Len(s.opts) >= 1 /\ Len(s.opts) <= Depth(s)
\* The loss fitted when it was accepted.
LossFitted == Finalized(s) => s.lay[Len(s.opts)].out = s.loss.size
\* The history of the optimizers starts with the latest accepted Finalize.
AcceptedFin == {k \in 1 .. Len(hist) : hist[k].op = "fin" /\ Finalized(s) /\ s.loss.id = k}
Fresh == \A k \in AcceptedFin : \A i \in DOMAIN s.opts : s.opts[i].t = Cardinality({q \in k .. Len(hist) : hist[q].op = "use"})
EmitProg == Len(hist) = Depth0 => Line(ToJson(hist))
=============================================================================
