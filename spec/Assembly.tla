------------------------------ MODULE Assembly ------------------------------
(* C12.  How a model is put together.  Of its layers lay[i], the sizes in    *)
(* and out matter here; the loss has a size; opts are the optimizers.        *)
EXTENDS Integers, Sequences

Depth(s) == Len(s.lay)
InSize(s) == IF Depth(s) = 0 THEN 0 ELSE s.lay[1].in
OutSize(s) == IF Depth(s) = 0 THEN 0 ELSE s.lay[Depth(s)].out

\* a layer l fits behind what is there
MayAdd(s, l) == Depth(s) = 0 \/ l.in = OutSize(s)
WithLayer(s, l) == IF MayAdd(s, l) THEN [s EXCEPT !.lay = Append(@, l)] ELSE s
\* a loss fits the outputs; o is what a new optimizer is
MayTake(s, loss) == loss.size = OutSize(s)
WithLoss(s, loss, fits, o) == IF fits /\ MayTake(s, loss) THEN [s EXCEPT !.loss = loss, !.opts = [i \in 1 .. Depth(s) |-> o]] ELSE s
=============================================================================
