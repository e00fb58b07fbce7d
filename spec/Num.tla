-------------------------------- MODULE Num --------------------------------
(* The number domain the specification is written over.  Two instances:     *)
(*   - Rat.tla, exact rationals in plain TLA+, for exhaustive models;       *)
(*   - Float64.tla, IEEE-754 doubles, for traces of the real code.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS
  NAdd(_, _), NSub(_, _), NMul(_, _), NDiv(_, _), NNeg(_), NAbs(_),
  NExp(_), NLn(_), NSqrt(_), NPow(_, _),
  NLt(_, _), NEq(_, _),
  NInt(_),                \* number of an integer
  NLit(_),                \* number of a decimal literal (a string)
  NTrunc(_),              \* integer part, as a TLA+ integer
  NFinite(_),             \* neither NaN nor infinite
  NCanon(_),              \* form in which a number may be kept in a state
  NSame(_, _),            \* the same number, bit for bit
  NClose(_, _, _, _)      \* NClose(a, b, tol, scale): equal up to rounding

N0 == NInt(0)
N1 == NInt(1)
NLe(a, b) == NLt(a, b) \/ NEq(a, b)
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NMin(a, b) == IF NLt(b, a) THEN b ELSE a

\* Sum of f(1..n), from left to right.
NSum(n, f(_)) == FoldLeftDomain(LAMBDA acc, k : NAdd(acc, f(k)), N0, [k \in 1 .. n |-> k])

\* Number of k in 1..n with P(k).
CountIf(n, P(_)) == Cardinality({k \in 1 .. n : P(k)})
=============================================================================
