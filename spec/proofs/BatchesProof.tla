---------------------------- MODULE BatchesProof ----------------------------
(* C15, for every number of samples n and every batch size b (0: none): the  *)
(* batches of an epoch follow each other, all but the last have the batch    *)
(* size, none is empty or larger, together they are rows 1 .. n, and their   *)
(* number is the least that can do.  Proved with tlapm.                      *)
EXTENDS Batches, TLAPS

Pos == Nat \ {0}

THEOREM CeilIs ==
  ASSUME NEW a \in Pos, NEW z \in Pos
  PROVE  Ceil(a, z) \in Pos /\ (Ceil(a, z) - 1) * z < a /\ a <= Ceil(a, z) * z
<1> DEFINE q == (a + z - 1) \div z
           r == (a + z - 1) % z
<1>1. q \in Int /\ r \in 0 .. z - 1 /\ a + z - 1 = z * q + r BY DEF Pos
<1>2. Ceil(a, z) = q BY DEF Ceil
<1> HIDE DEF q, r
<1>3. q * z = z * q BY <1>1 DEF Pos
<1>4. (q - 1) * z = q * z - z BY <1>1 DEF Pos
<1>5. q > 0
  <2> SUFFICES ASSUME q <= 0 PROVE FALSE BY <1>1
  <2>1. z * q <= 0 /\ z * q \in Int BY <1>1 DEF Pos
  <2>2. a + z - 1 <= z - 1 BY <2>1, <1>1 DEF Pos
  <2> QED BY <2>2 DEF Pos
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Pos

THEOREM Rows == ASSUME NEW n \in Pos, NEW b \in Nat PROVE BatchRows(n, b) \in Pos
BY DEF BatchRows, Pos

Lo(t) == t[2]
Hi(t) == t[3]

THEOREM Partition ==
  ASSUME NEW d, NEW n \in Pos, NEW b \in Nat
  PROVE  LET s == Epoch(d, n, b)
             m == BatchSteps(n, b)
             z == BatchRows(n, b)
         IN  /\ m \in Pos
             /\ Lo(s[1]) = 1
             /\ Hi(s[m]) = n
             /\ \A k \in 1 .. m : 1 <= Lo(s[k]) /\ Lo(s[k]) <= Hi(s[k]) /\ Hi(s[k]) <= n /\ Hi(s[k]) - Lo(s[k]) + 1 <= z
             /\ \A k \in 1 .. m - 1 : Hi(s[k]) + 1 = Lo(s[k + 1]) /\ Hi(s[k]) - Lo(s[k]) + 1 = z
<1> DEFINE m == BatchSteps(n, b)
           z == BatchRows(n, b)
           s == Epoch(d, n, b)
<1>1. z \in Pos BY Rows
<1>2. m \in Pos /\ (m - 1) * z < n /\ n <= m * z BY <1>1, CeilIs DEF BatchSteps
<1>3. \A k \in 1 .. m : s[k] = <<d, (k - 1) * z + 1, IF k * z < n THEN k * z ELSE n>> BY <1>2 DEF Epoch, Pos
<1> HIDE DEF m, z, s
<1>4. \A k \in 1 .. m : Lo(s[k]) = (k - 1) * z + 1 /\ Hi(s[k]) = (IF k * z < n THEN k * z ELSE n) BY <1>3 DEF Lo, Hi
<1>5. \A k \in Int : (k - 1) * z = k * z - z BY <1>1 DEF Pos
<1>6. \A j, k \in Int : j <= k => j * z <= k * z
  <2> SUFFICES ASSUME NEW j \in Int, NEW k \in Int, j <= k PROVE j * z <= k * z OBVIOUS
  <2> DEFINE e == k - j
  <2>1. e \in Nat /\ k = j + e OBVIOUS
  <2> HIDE DEF e
  <2>2. (j + e) * z = j * z + e * z BY <1>1, <2>1 DEF Pos
  <2>3. e * z >= 0 BY <1>1, <2>1 DEF Pos
  <2>4. j * z \in Int /\ e * z \in Int BY <1>1, <2>1 DEF Pos
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1>7. \A k \in Int : k * z \in Int BY <1>1 DEF Pos
<1>8. 0 * z = 0 /\ 1 * z = z BY <1>1 DEF Pos
<1>9. Lo(s[1]) = 1 BY <1>2, <1>4, <1>8 DEF Pos
<1>10. Hi(s[m]) = n BY <1>2, <1>4, <1>7 DEF Pos
<1>11. ASSUME NEW k \in 1 .. m PROVE 1 <= Lo(s[k]) /\ Lo(s[k]) <= Hi(s[k]) /\ Hi(s[k]) <= n /\ Hi(s[k]) - Lo(s[k]) + 1 <= z
  <2>1. (k - 1) * z <= (m - 1) * z BY <1>6, <1>2 DEF Pos
  <2>2. 0 * z <= (k - 1) * z BY <1>6
  <2>3. (k - 1) * z = k * z - z BY <1>5
  <2>4. (k - 1) * z \in Int /\ k * z \in Int /\ (m - 1) * z \in Int BY <1>7, <1>2 DEF Pos
  <2> DEFINE g == (k - 1) * z
             h == k * z
             w == (m - 1) * z
  <2>5. g \in Int /\ h \in Int /\ w \in Int /\ g <= w /\ 0 <= g /\ g = h - z /\ w < n BY <2>1, <2>2, <2>3, <2>4, <1>2, <1>8
  <2>6. Lo(s[k]) = g + 1 /\ Hi(s[k]) = (IF h < n THEN h ELSE n) BY <1>4
  <2>7. z \in Int /\ z >= 1 /\ n \in Int BY <1>1 DEF Pos
  <2> HIDE DEF g, h, w
  <2> QED BY <2>5, <2>6, <2>7
<1>12. ASSUME NEW k \in 1 .. m - 1 PROVE Hi(s[k]) + 1 = Lo(s[k + 1]) /\ Hi(s[k]) - Lo(s[k]) + 1 = z
  <2>1. k * z <= (m - 1) * z BY <1>6, <1>2 DEF Pos
  <2>2. (k - 1) * z = k * z - z /\ ((k + 1) - 1) * z = k * z BY <1>5
  <2>3. k * z \in Int /\ (m - 1) * z \in Int BY <1>7, <1>2 DEF Pos
  <2>4. k \in 1 .. m /\ k + 1 \in 1 .. m BY <1>2 DEF Pos
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <1>1, <1>2, <1>4 DEF Pos
<1> QED BY <1>2, <1>9, <1>10, <1>11, <1>12 DEF m, z, s

\* Every row is in exactly one batch.
THEOREM EveryRowOnce ==
  ASSUME NEW d, NEW n \in Pos, NEW b \in Nat, NEW k \in 1 .. BatchSteps(n, b), NEW j \in 1 .. BatchSteps(n, b), j < k
  PROVE  Hi(Epoch(d, n, b)[j]) < Lo(Epoch(d, n, b)[k])
<1> DEFINE m == BatchSteps(n, b)
           z == BatchRows(n, b)
<1>1. z \in Pos BY Rows
<1>2. m \in Pos BY <1>1, CeilIs DEF BatchSteps
<1>3. \A i \in 1 .. m : Epoch(d, n, b)[i] = <<d, (i - 1) * z + 1, IF i * z < n THEN i * z ELSE n>> BY <1>2 DEF Epoch, Pos
<1> HIDE DEF m, z
<1>4. j \in 1 .. m /\ k \in 1 .. m BY DEF m
<1> DEFINE e == k - 1 - j
<1>5. e \in Nat /\ k - 1 = j + e BY <1>2, <1>4 DEF Pos
<1> HIDE DEF e
<1>6. (j + e) * z = j * z + e * z BY <1>1, <1>5, <1>4 DEF Pos
<1>7. e * z >= 0 /\ e * z \in Int /\ j * z \in Int BY <1>1, <1>5, <1>4 DEF Pos
<1>8. j * z <= (k - 1) * z BY <1>5, <1>6, <1>7
<1>9. (k - 1) * z \in Int BY <1>1, <1>4 DEF Pos
<1>10. (IF j * z < n THEN j * z ELSE n) <= j * z BY <1>7 DEF Pos
<1> QED BY <1>3, <1>4, <1>7, <1>8, <1>9, <1>10 DEF Lo, Hi, Pos
=============================================================================
