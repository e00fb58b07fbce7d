----------------------------- MODULE TrainProto -----------------------------
(* C15, C16, C17, C18.  Enumerates sequences of fits, valid and refused,    *)
(* and for each the batches that have to be trained on.                     *)
EXTENDS Batches, FiniteSets, TLC, Json, Out
CONSTANTS Ns, Depth, Epochs, Batches, Bads, N2
VARIABLES n, fits, steps
pvars == <<n, fits, steps>>

Rows(d) == IF d = 1 THEN n ELSE N2
Fits == [e : Epochs, b : Batches, d : {1, 2}, bad : {""}] \cup [e : {1}, b : {2}, d : {1}, bad : Bads]
Init == n \in Ns /\ fits = <<>> /\ steps = <<>>
Fit(f) == /\ Len(fits) < Depth
          /\ fits' = Append(fits, f)
          /\ steps' = IF f.bad = "" THEN steps \o Steps(f.d, Rows(f.d), f.b, f.e) ELSE steps
          /\ UNCHANGED n
Next == \E f \in Fits : Fit(f)

\* The batches of one epoch are consecutive, of the right sizes, and cover every row once.
Covers ==
  fits = <<>> => \A f \in Fits :
    LET r == Rows(f.d)
        s == Epoch(f.d, r, f.b)
    IN  /\ s[1][2] = 1 /\ s[Len(s)][3] = r
        /\ \A k \in 1 .. Len(s) : s[k][2] <= s[k][3]
        /\ \A k \in 1 .. Len(s) - 1 : s[k][3] + 1 = s[k + 1][2] /\ s[k][3] - s[k][2] + 1 = f.b
        /\ s[Len(s)][3] - s[Len(s)][2] + 1 <= BatchRows(r, f.b)
        /\ (f.b = 0 \/ f.b >= r) => Len(s) = 1
        /\ f.b # 0 => Len(s) = (IF r % f.b = 0 THEN r \div f.b ELSE (r \div f.b) + 1)
\* Consecutive fits over the same data add up.
AddsUp == fits = <<>> => \A f, g \in {h \in Fits : h.bad = ""} : (f.d = g.d /\ f.b = g.b) => Steps(f.d, Rows(f.d), f.b, f.e) \o Steps(g.d, Rows(g.d), g.b, g.e) = Steps(f.d, Rows(f.d), f.b, f.e + g.e)
\* Refused fits leave no trace.
OnlyValid == Len(steps) = 0 <=> \A k \in 1 .. Len(fits) : fits[k].bad # "" \/ fits[k].e = 0
EmitProg == Len(fits) \in 1 .. Depth => Line(ToJson([n |-> <<n, N2>>, fits |-> fits, steps |-> steps]))
=============================================================================
