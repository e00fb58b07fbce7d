---------------------------- MODULE ShuffleProof ----------------------------
(* C25, for any number of samples: whatever swaps a shuffle makes, every     *)
(* sample is kept and keeps its label.  Proved with tlapm.                   *)
EXTENDS ShuffleModel, TLAPS

ASSUME SomeRows == N \in Nat \ {0}
Rows == 1 .. N
Kept == /\ X \in [Rows -> Rows] /\ Y \in [Rows -> Int] /\ i \in Int /\ i <= N
        /\ PairsKept
        /\ \A r \in Rows : \E k \in Rows : X[k] = r

LEMMA Labels == \A x \in Int : Label(x) \in Int BY DEF Label

LEMMA Start == Init => Kept
BY SomeRows, Labels DEF Init, Kept, PairsKept, Rows

LEMMA Swapping == ASSUME Kept, Next PROVE Kept'
<1> USE SomeRows DEF Rows
<1>1. PICK j \in 1 .. i : X' = SwapIn(X, i, j) /\ Y' = SwapIn(Y, i, j) BY DEF Next
<1>2. i' = i - 1 /\ i > 1 /\ i \in Rows /\ j \in Rows BY <1>1 DEF Next, Kept
<1>3. X' \in [Rows -> Rows] /\ Y' \in [Rows -> Int] BY <1>1, <1>2 DEF Kept, SwapIn
<1>4. \A k \in Rows : X'[k] = IF k = j THEN X[i] ELSE IF k = i THEN X[j] ELSE X[k] BY <1>1, <1>2 DEF Kept, SwapIn
<1>5. \A k \in Rows : Y'[k] = IF k = j THEN Y[i] ELSE IF k = i THEN Y[j] ELSE Y[k] BY <1>1, <1>2 DEF Kept, SwapIn
<1>6. PairsKept' BY <1>2, <1>4, <1>5 DEF Kept, PairsKept
<1>7. ASSUME NEW r \in Rows PROVE \E k \in Rows : X'[k] = r
  <2>1. PICK k \in Rows : X[k] = r BY DEF Kept
  <2>2. CASE k = i BY <2>1, <2>2, <1>2, <1>4
  <2>3. CASE k = j /\ k # i BY <2>1, <2>3, <1>2, <1>4
  <2>4. CASE k # i /\ k # j BY <2>1, <2>4, <1>2, <1>4
  <2> QED BY <2>2, <2>3, <2>4
<1> QED BY <1>2, <1>3, <1>6, <1>7 DEF Kept

THEOREM Safe == Spec => [](PairsKept /\ Permuted)
<1>1. Kept => PairsKept /\ Permuted BY DEF Kept, Permuted, Rows
<1>2. Kept /\ [Next]_svars => Kept'
  <2>1. CASE UNCHANGED svars BY <2>1 DEF svars, Kept, PairsKept
  <2> QED BY <2>1, Swapping
<1> QED BY <1>1, <1>2, Start, PTL DEF Spec
=============================================================================
