------------------------------ MODULE Batches ------------------------------
(* The batches a fit trains on.  A batch <<d, lo, hi>> is rows lo..hi of     *)
(* data set d.  BatchesProof has what holds of them for all sizes.           *)
EXTENDS Integers, Sequences

Ceil(a, b) == (a + b - 1) \div b
BatchRows(n, b) == IF b = 0 THEN n ELSE b
BatchSteps(n, b) == Ceil(n, BatchRows(n, b))
\* in one epoch
Epoch(d, n, b) ==
  LET z == BatchRows(n, b)
  IN  [k \in 1 .. BatchSteps(n, b) |-> <<d, (k - 1) * z + 1, IF k * z < n THEN k * z ELSE n>>]
\* in e epochs
Repeat(s, e) == [k \in 1 .. e * Len(s) |-> s[((k - 1) % Len(s)) + 1]]
Steps(d, n, b, e) == Repeat(Epoch(d, n, b), e)
=============================================================================
