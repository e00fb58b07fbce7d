----------------------------- MODULE LabelsProof ----------------------------
(* C23, C24, for rows of any length and any numbers in some order: every     *)
(* row has exactly one first largest entry, and that of the row of a label   *)
(* is the label.  Proved with tlapm.                                         *)
EXTENDS Labels, NaturalsInduction, TLAPS
CONSTANTS V, Less(_, _)

\* a strict order in which numbers may be equal (like 0 and -0)
ASSUME Order == /\ \A a \in V : ~Less(a, a)
                /\ \A a, b, c \in V : Less(a, b) /\ Less(b, c) => Less(a, c)
                /\ \A a, b, c \in V : Less(a, b) => Less(a, c) \/ Less(c, b)

Has(n) == \A row \in [1 .. n -> V] : \E j \in 1 .. n : Best(row, n, j, Less)

LEMMA One == Has(1)
BY Order DEF Has, Best

LEMMA More == ASSUME NEW n \in Nat, n >= 1, Has(n) PROVE Has(n + 1)
<1> SUFFICES ASSUME NEW row \in [1 .. n + 1 -> V] PROVE \E j \in 1 .. n + 1 : Best(row, n + 1, j, Less) BY DEF Has
<1> DEFINE r == [j \in 1 .. n |-> row[j]]
<1>1. r \in [1 .. n -> V] OBVIOUS
<1>2. PICK j \in 1 .. n : Best(r, n, j, Less) BY <1>1 DEF Has
<1>3. \A k \in 1 .. n : r[k] = row[k] OBVIOUS
<1> HIDE DEF r
<1>4. \A k \in 1 .. n : ~Less(row[j], row[k]) BY <1>2, <1>3 DEF Best
<1>5. \A k \in 1 .. j - 1 : Less(row[k], row[j]) BY <1>2, <1>3 DEF Best
<1>6. row[n + 1] \in V /\ row[j] \in V /\ \A k \in 1 .. n : row[k] \in V OBVIOUS
<1>7. CASE Less(row[j], row[n + 1])
  <2>1. \A k \in 1 .. n : Less(row[k], row[n + 1])
    <3> SUFFICES ASSUME NEW k \in 1 .. n PROVE Less(row[k], row[n + 1]) OBVIOUS
    <3>1. Less(row[j], row[k]) \/ Less(row[k], row[n + 1]) BY <1>6, <1>7, Order
    <3> QED BY <3>1, <1>4
  <2>2. \A k \in 1 .. n : ~Less(row[n + 1], row[k])
    <3> SUFFICES ASSUME NEW k \in 1 .. n, Less(row[n + 1], row[k]) PROVE FALSE OBVIOUS
    <3>1. Less(row[k], row[n + 1]) /\ row[k] \in V BY <2>1, <1>6
    <3>2. Less(row[k], row[k]) BY <3>1, <1>6, Order
    <3> QED BY <3>1, <3>2, Order
  <2>3. ~Less(row[n + 1], row[n + 1]) BY <1>6, Order
  <2>4. \A k \in 1 .. n + 1 : k \in 1 .. n \/ k = n + 1 OBVIOUS
  <2>5. (n + 1) - 1 = n OBVIOUS
  <2>6. \A k \in 1 .. n + 1 : ~Less(row[n + 1], row[k]) BY <2>2, <2>3, <2>4
  <2>7. Best(row, n + 1, n + 1, Less) BY <2>1, <2>5, <2>6 DEF Best
  <2> QED BY <2>7
<1>8. CASE ~Less(row[j], row[n + 1])
  <2>1. \A k \in 1 .. n + 1 : k \in 1 .. n \/ k = n + 1 OBVIOUS
  <2>2. \A k \in 1 .. n + 1 : ~Less(row[j], row[k]) BY <1>4, <1>8, <2>1
  <2>3. j \in 1 .. n + 1 OBVIOUS
  <2>4. Best(row, n + 1, j, Less) BY <1>5, <2>2, <2>3 DEF Best
  <2> QED BY <2>3, <2>4
<1> QED BY <1>7, <1>8

THEOREM Exists == \A n \in Nat : n >= 1 => Has(n)
<1> DEFINE P(n) == n >= 1 => Has(n)
<1>1. P(0) OBVIOUS
<1>2. ASSUME NEW n \in Nat, P(n) PROVE P(n + 1)
  <2>1. CASE n = 0 BY <2>1, One
  <2>2. CASE n >= 1 BY <2>2, <1>2, More
  <2> QED BY <2>1, <2>2
<1> HIDE DEF P
<1>3. \A n \in Nat : P(n) BY <1>1, <1>2, NatInduction
<1> QED BY <1>3 DEF P

THEOREM Unique ==
  ASSUME NEW n \in Nat, NEW row \in [1 .. n -> V], NEW i \in 1 .. n, NEW j \in 1 .. n, Best(row, n, i, Less), Best(row, n, j, Less)
  PROVE  i = j
<1>1. ~(i < j) BY DEF Best
<1>2. ~(j < i) BY DEF Best
<1> QED BY <1>1, <1>2

THEOREM OfALabel ==
  ASSUME NEW n \in Nat, NEW zero \in V, NEW one \in V, Less(zero, one), NEW at \in 1 .. n, NEW Is(_), \A j \in 1 .. n : Is(j) <=> j = at
  PROVE  FirstLargest(LabelRow(n, Is, zero, one), Less) = at
<1> DEFINE row == LabelRow(n, Is, zero, one)
<1>1. row \in [1 .. n -> V] /\ Len(row) = n BY DEF LabelRow
<1>2. row[at] = one /\ \A k \in 1 .. n : k # at => row[k] = zero BY DEF LabelRow
<1> HIDE DEF row
<1>3. ~Less(one, zero) /\ ~Less(one, one) BY Order
<1>4. Best(row, n, at, Less) BY <1>2, <1>3 DEF Best
<1>5. \A j \in 1 .. n : Best(row, n, j, Less) => j = at BY <1>1, <1>4, Unique
<1>6. FirstLargest(row, Less) = at BY <1>1, <1>4, <1>5 DEF FirstLargest
<1> QED BY <1>6 DEF row
=============================================================================
