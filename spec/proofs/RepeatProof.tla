----------------------------- MODULE RepeatProof ----------------------------
(* C15, C18, C19, for all sizes: a epochs and then b epochs are a + b        *)
(* epochs, whether in one fit, in two, or with a save and a load between     *)
(* them; and each epoch is the same list of batches.  Proved with tlapm.     *)
EXTENDS Batches, TLAPS

Pos == Nat \ {0}

LEMMA Div == ASSUME NEW L \in Pos, NEW y \in Int PROVE (y \div L) \in Int /\ (y % L) \in Int /\ 0 <= y % L /\ y % L < L /\ y = L * (y \div L) + (y % L)
BY DEF Pos

LEMMA Apart == ASSUME NEW L \in Pos, NEW e \in Int, NEW r \in Int, NEW w \in Int, L * e = r - w, 0 <= r, r < L, 0 <= w, w < L PROVE r = w
<1>1. e >= 1 => L * e >= L BY DEF Pos
<1>2. e <= -1 => L * e <= 0 - L BY DEF Pos
<1>3. L * 0 = 0 BY DEF Pos
<1>4. L \in Int BY DEF Pos
<1>5. e = 0 BY <1>1, <1>2, <1>4
<1> QED BY <1>3, <1>5

LEMMA Mod == ASSUME NEW L \in Pos, NEW x \in Nat, NEW q \in Nat PROVE (q * L + x) % L = x % L
<1> DEFINE r == x % L
           p == x \div L
           y == q * L + x
           u == y \div L
           w == y % L
           e == u - (q + p)
<1>1. q * L \in Int /\ q * L = L * q BY DEF Pos
<1>2. y \in Int BY <1>1
<1>3. p \in Int /\ r \in Int /\ 0 <= r /\ r < L /\ x = L * p + r BY Div
<1> HIDE DEF y
<1>4. u \in Int /\ w \in Int /\ 0 <= w /\ w < L /\ y = L * u + w BY <1>2, Div
<1> HIDE DEF r, p, u, w
<1>5. y = L * q + x BY <1>1 DEF y
<1>6. e \in Int BY <1>3, <1>4
<1>7. L * e = L * u - L * q - L * p BY <1>3, <1>4 DEF Pos
<1>8. L * u \in Int /\ L * q \in Int /\ L * p \in Int BY <1>3, <1>4 DEF Pos
<1> DEFINE lu == L * u
           lq == L * q
           lp == L * p
           le == L * e
<1>9. lu \in Int /\ lq \in Int /\ lp \in Int /\ le = lu - lq - lp /\ y = lu + w /\ y = lq + x /\ x = lp + r BY <1>3, <1>4, <1>5, <1>7, <1>8
<1> HIDE DEF lu, lq, lp, le
<1>10. le = r - w BY <1>3, <1>4, <1>9
<1> HIDE DEF e
<1>11. L * e = r - w BY <1>10 DEF le
<1>12. r = w BY <1>3, <1>4, <1>6, <1>11, Apart
<1> QED BY <1>12 DEF r, w, y

THEOREM InParts ==
  ASSUME NEW S, NEW s \in Seq(S), Len(s) > 0, NEW a \in Nat, NEW b \in Nat
  PROVE  Repeat(s, a + b) = Repeat(s, a) \o Repeat(s, b)
<1> DEFINE L == Len(s)
           A == Repeat(s, a)
           B == Repeat(s, b)
           C == Repeat(s, a + b)
<1>1. L \in Pos BY DEF Pos
<1>2. a * L \in Nat /\ b * L \in Nat /\ (a + b) * L = a * L + b * L BY <1>1 DEF Pos
<1>3. \A k \in Nat : (k % L) + 1 \in 1 .. L BY <1>1 DEF Pos
<1>4. \A k \in 1 .. a * L : s[((k - 1) % L) + 1] \in S BY <1>2, <1>3
<1>5. \A k \in 1 .. b * L : s[((k - 1) % L) + 1] \in S BY <1>2, <1>3
<1>6. \A k \in 1 .. (a + b) * L : s[((k - 1) % L) + 1] \in S BY <1>2, <1>3
<1>7. A = [k \in 1 .. a * L |-> s[((k - 1) % L) + 1]] /\ B = [k \in 1 .. b * L |-> s[((k - 1) % L) + 1]]
      /\ C = [k \in 1 .. (a + b) * L |-> s[((k - 1) % L) + 1]] BY DEF Repeat
<1> DEFINE la == a * L
           lb == b * L
           lc == (a + b) * L
           T(k) == s[((k - 1) % L) + 1]
<1>8. la \in Nat /\ lb \in Nat /\ lc = la + lb BY <1>2
<1>9. ASSUME NEW k \in Int, k > la PROVE T(k) = T(k - la)
  <2> DEFINE x == k - la - 1
  <2>1. x \in Nat /\ k - 1 = a * L + x /\ (k - la) - 1 = x BY <1>8, <1>9
  <2> HIDE DEF x
  <2>2. (a * L + x) % L = x % L BY <1>1, <2>1, Mod
  <2> QED BY <2>1, <2>2
<1>10. A \in Seq(S) /\ Len(A) = la BY <1>4, <1>7, <1>8
<1>11. B \in Seq(S) /\ Len(B) = lb BY <1>5, <1>7, <1>8
<1>12. \A k \in 1 .. la : A[k] = T(k) BY <1>7
<1>13. \A k \in 1 .. lb : B[k] = T(k) BY <1>7
<1>14. C = [k \in 1 .. lc |-> T(k)] BY <1>7
<1> HIDE DEF A, B, C, la, lb, lc, T
<1>15. A \o B = [k \in 1 .. lc |-> IF k <= la THEN A[k] ELSE B[k - la]] BY <1>8, <1>10, <1>11
<1>16. ASSUME NEW k \in 1 .. lc PROVE T(k) = IF k <= la THEN A[k] ELSE B[k - la]
  <2>1. CASE k <= la BY <2>1, <1>8, <1>12
  <2>2. CASE k > la
    <3>1. k - la \in 1 .. lb BY <2>2, <1>8
    <3> QED BY <2>2, <3>1, <1>8, <1>9, <1>13
  <2> QED BY <2>1, <2>2, <1>8
<1>17. C = A \o B BY <1>14, <1>15, <1>16
<1> QED BY <1>17 DEF A, B, C

=============================================================================
