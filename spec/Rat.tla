-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic in plain TLA+: <<n, d>> with d > 0, in lowest  *)
(* terms.  No transcendental functions: the models that use this instance   *)
(* do not take them.                                                        *)
EXTENDS Integers

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
RAbsI(a) == IF a < 0 THEN -a ELSE a
RNorm(n, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == GCD(RAbsI(n), RAbsI(d))
  IN  << (s * n) \div g, (s * d) \div g >>

RAdd(a, b) == RNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RNorm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == RNorm(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RNorm(a[1] * b[2], a[2] * b[1])
RNeg(a) == << -a[1], a[2] >>
RAbs(a) == << RAbsI(a[1]), a[2] >>
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
REq(a, b) == a = b
RInt(i) == << i, 1 >>
RTrunc(a) == IF a[1] >= 0 THEN a[1] \div a[2] ELSE -((-a[1]) \div a[2])
RFinite(a) == TRUE
RCanon(a) == a
RSame(a, b) == a = b
RClose(a, b, tol, scale) == a = b
RLit(s) == CASE s = "0.5" -> << 1, 2 >> [] s = "1e-7" -> << 1, 10000000 >> [] OTHER -> << 0, 1 >>
RECURSIVE RPowI(_, _)
RPowI(a, k) == IF k = 0 THEN RInt(1) ELSE RMul(a, RPowI(a, k - 1))
\* only for natural exponents
RPow(a, b) == RPowI(a, b[1] \div b[2])
\* exact square roots of squares of rationals with small parts
RSqrt(a) ==
  LET r == { p \in 0 .. 400 : p * p = a[1] }
      s == { p \in 1 .. 400 : p * p = a[2] }
  IN  << CHOOSE p \in r : TRUE, CHOOSE p \in s : TRUE >>
RNone(a) == CHOOSE x : FALSE
=============================================================================
