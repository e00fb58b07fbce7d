------------------------------ MODULE Float64 ------------------------------
(* IEEE-754 binary64 numbers, written as decimal strings.  The bodies below *)
(* only fix the signatures; TLC evaluates the operators with the Java class *)
(* of the same name (java/Float64.java).                                    *)
FAdd(a, b) == CHOOSE x : TRUE
FSub(a, b) == CHOOSE x : TRUE
FMul(a, b) == CHOOSE x : TRUE
FDiv(a, b) == CHOOSE x : TRUE
FNeg(a) == CHOOSE x : TRUE
FAbs(a) == CHOOSE x : TRUE
FExp(a) == CHOOSE x : TRUE
FLn(a) == CHOOSE x : TRUE
FSqrt(a) == CHOOSE x : TRUE
FPow(a, b) == CHOOSE x : TRUE
FLt(a, b) == CHOOSE x : TRUE
FLe(a, b) == CHOOSE x : TRUE
FEq(a, b) == CHOOSE x : TRUE          \* IEEE equality
FInt(i) == CHOOSE x : TRUE            \* the number of a TLA+ integer
FLit(s) == CHOOSE x : TRUE            \* the number of a decimal literal
FTrunc(a) == CHOOSE x : TRUE          \* a TLA+ integer, rounded towards 0
FIsFinite(a) == CHOOSE x : TRUE
FIsNaN(a) == CHOOSE x : TRUE
FStr(a) == CHOOSE x : TRUE            \* canonical form, for values kept in a state
FSame(a, b) == CHOOSE x : TRUE        \* bit-identical
FClose(a, b, tol, scale) == CHOOSE x : TRUE
FBytes(a) == CHOOSE x : TRUE          \* eight little-endian bytes
FFromBytes(s) == CHOOSE x : TRUE
StrBytes(s) == CHOOSE x : TRUE
BytesStr(s) == CHOOSE x : TRUE
=============================================================================
