-------------------------------- MODULE Mat --------------------------------
(* Matrices [r, c, m]: m is a sequence of r rows of c numbers.              *)
EXTENDS Num

Mat(r, c, f(_, _)) ==
  [r |-> r, c |-> c,
   m |-> TLCEval([i \in 1 .. r |-> TLCEval([j \in 1 .. c |-> f(i, j)])])]

\* Fields agree with the data.
WF(A) == /\ A.r >= 1 /\ A.c >= 1
         /\ Len(A.m) = A.r
         /\ \A i \in 1 .. A.r : Len(A.m[i]) = A.c

Zeros(r, c) == Mat(r, c, LAMBDA i, j : N0)
Ones(r, c) == Mat(r, c, LAMBDA i, j : N1)
SameShape(A, B) == A.r = B.r /\ A.c = B.c

MMap(A, f(_)) == Mat(A.r, A.c, LAMBDA i, j : f(A.m[i][j]))
MZip(A, B, f(_, _)) == Mat(A.r, A.c, LAMBDA i, j : f(A.m[i][j], B.m[i][j]))

MAdd(A, B) == MZip(A, B, NAdd)
MSub(A, B) == MZip(A, B, NSub)
MHad(A, B) == MZip(A, B, NMul)
MNeg(A) == MMap(A, NNeg)
MAbs(A) == MMap(A, NAbs)
MAddS(A, x) == MMap(A, LAMBDA v : NAdd(v, x))
MMulS(A, x) == MMap(A, LAMBDA v : NMul(v, x))
MPowS(A, x) == MMap(A, LAMBDA v : NPow(v, x))
MT(A) == Mat(A.c, A.r, LAMBDA i, j : A.m[j][i])

\* Product; the rows of the transpose are the columns of B.
MDot(A, B) ==
  LET BT == MT(B)
  IN  Mat(A.r, B.c, LAMBDA i, j :
        LET u == A.m[i]
            v == BT.m[j]
        IN  FoldLeftDomain(LAMBDA acc, k : NAdd(acc, NMul(u[k], v[k])), N0, u))

\* Axis 0: sums of the columns; axis 1: sums of the rows; both as one row.
MSum0(A) == Mat(1, A.c, LAMBDA i, j : NSum(A.r, LAMBDA k : A.m[k][j]))
MSum1(A) == Mat(1, A.r, LAMBDA i, j : NSum(A.c, LAMBDA k : A.m[j][k]))
MSum(A, axis) == IF axis = 0 THEN MSum0(A) ELSE MSum1(A)

MEq(A, B) == SameShape(A, B) /\ \A i \in 1 .. A.r, j \in 1 .. A.c : NEq(A.m[i][j], B.m[i][j])

MCanon(A) == MMap(A, NCanon)
MRows(A, lo, hi) == [r |-> hi - lo + 1, c |-> A.c, m |-> SubSeq(A.m, lo, hi)]

\* Every entry bit-identical.
MSame(A, B) == /\ A.r = B.r /\ A.c = B.c /\ Len(A.m) = Len(B.m)
               /\ \A i \in 1 .. Len(A.m) :
                    /\ Len(A.m[i]) = Len(B.m[i])
                    /\ \A j \in 1 .. Len(A.m[i]) : NSame(A.m[i][j], B.m[i][j])

\* Every entry equal (0 = -0), NaN to NaN.
MSame0(A, B) == /\ WF(A) /\ SameShape(A, B)
                /\ \A i \in 1 .. A.r, j \in 1 .. A.c : NEq(A.m[i][j], B.m[i][j]) \/ NSame(A.m[i][j], B.m[i][j])

\* Equal up to rounding.  S gives, per entry, the magnitude of the terms that
\* were added up, so that any order of summation is accepted.
MCloseS(A, B, tol, S) ==
  /\ WF(A) /\ SameShape(A, B)
  /\ \A i \in 1 .. B.r, j \in 1 .. B.c : NClose(A.m[i][j], B.m[i][j], tol, S.m[i][j])
\* Equal up to a relative error per entry.
MClose(A, B, tol) ==
  /\ WF(A) /\ SameShape(A, B)
  /\ \A i \in 1 .. B.r, j \in 1 .. B.c : NClose(A.m[i][j], B.m[i][j], tol, N0)
\* Equal up to an error relative to the largest of the entry and 1.
MClose1(A, B, tol) ==
  /\ WF(A) /\ SameShape(A, B)
  /\ \A i \in 1 .. B.r, j \in 1 .. B.c : NClose(A.m[i][j], B.m[i][j], tol, N1)
MFinite(A) == \A i \in 1 .. A.r, j \in 1 .. A.c : NFinite(A.m[i][j])
=============================================================================
