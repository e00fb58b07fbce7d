------------------------------ MODULE MatLaws ------------------------------
(* C01.  The definitions of Mat.tla, over exact rationals, obey the laws    *)
(* that define the operations: checked for every pair of small matrices.    *)
EXTENDS Mat, Rat

CONSTANTS Shapes
Shapes1 == {<<2, 2, 2, 2>>, <<1, 3, 3, 1>>, <<2, 1, 1, 2>>, <<1, 2, 1, 2>>, <<1, 1, 1, 3>>}
VARIABLES A, B

Small == {<<-1, 1>>, <<0, 1>>, <<3, 2>>}
AllOf(r, c) == {[r |-> r, c |-> c, m |-> m] : m \in [1 .. r -> [1 .. c -> Small]]}

Init == \E s \in Shapes : A \in AllOf(s[1], s[2]) /\ B \in AllOf(s[3], s[4])
Next == UNCHANGED <<A, B>>

I(k) == Mat(k, k, LAMBDA i, j : IF i = j THEN N1 ELSE N0)
Row1(k) == Ones(1, k)

Transposes == /\ MT(MT(A)) = A
              /\ A.c = B.r => MT(MDot(A, B)) = MDot(MT(B), MT(A))
Identity == MDot(A, I(A.c)) = A /\ MDot(I(A.r), A) = A
Additive == SameShape(A, B) => /\ MAdd(A, B) = MAdd(B, A)
                               /\ MSub(A, B) = MAdd(A, MNeg(B))
                               /\ MSub(MAdd(A, B), B) = A
                               /\ MEq(A, B) <=> (A = B)
                               /\ MEq(A, B) <=> MSub(A, B) = Zeros(A.r, A.c)
Bilinear == A.c = B.r => /\ MDot(MAddS(A, N1), B) = MAdd(MDot(A, B), MDot(Ones(A.r, A.c), B))
                         /\ MDot(MMulS(A, <<3, 2>>), B) = MMulS(MDot(A, B), <<3, 2>>)
                         /\ WF(MDot(A, B)) /\ MDot(A, B).r = A.r /\ MDot(A, B).c = B.c
\* Sums are products with a vector of ones.
Sums == /\ MSum(A, 0) = MDot(Row1(A.r), A)
        /\ MSum(A, 1) = MT(MDot(A, MT(Row1(A.c))))
Powers == MPowS(A, <<2, 1>>) = MHad(A, A) /\ MPowS(A, <<0, 1>>) = Ones(A.r, A.c)
=============================================================================
