----------------------------- MODULE CellsProof -----------------------------
(* C02, for matrices of any size, any number of them and any history: a      *)
(* write that is refused changes nothing, one that is accepted changes       *)
(* exactly the cells that it names, in one matrix, and never a size; so a    *)
(* read always finds the latest accepted write.  Proved with tlapm.          *)
EXTENDS Cells, TLAPS

Rows(A) == 1 .. A.r
Cols(A) == 1 .. A.c
Grids(r, c, V) == [r : {r}, c : {c}, m : [1 .. r -> [1 .. c -> V]]]
IsGrid(A, V) == A.r \in Nat \ {0} /\ A.c \in Nat \ {0} /\ A \in Grids(A.r, A.c, V)

THEOREM RefusedWrite == ASSUME NEW H, NEW e, e.op \in WriteOps, ~MayWrite(H, e) PROVE Written(H, e) = H
BY DEF Written

THEOREM OneCell ==
  ASSUME NEW V, NEW A, IsGrid(A, V), NEW i \in Int, NEW j \in Int, RowIn(A, i), ColIn(A, j), NEW x \in V
  PROVE  LET B == SetCell(A, i, j, x)
         IN  /\ IsGrid(B, V) /\ B.r = A.r /\ B.c = A.c
             /\ \A p \in Rows(A), q \in Cols(A) : B.m[p][q] = IF p = i + 1 /\ q = j + 1 THEN x ELSE A.m[p][q]
<1>1. A = [r |-> A.r, c |-> A.c, m |-> A.m] /\ A.m \in [1 .. A.r -> [1 .. A.c -> V]] BY DEF IsGrid, Grids
<1> DEFINE M == [A.m EXCEPT ![i + 1][j + 1] = x]
<1>2. SetCell(A, i, j, x) = [A EXCEPT !.m = M] BY <1>1 DEF SetCell
<1>3. [A EXCEPT !.m = M] = [r |-> A.r, c |-> A.c, m |-> M] BY <1>1
<1>4. i + 1 \in 1 .. A.r /\ j + 1 \in 1 .. A.c BY DEF RowIn, ColIn, IsGrid
<1>5. M \in [1 .. A.r -> [1 .. A.c -> V]] BY <1>1, <1>4
<1>6. \A p \in Rows(A), q \in Cols(A) : M[p][q] = IF p = i + 1 /\ q = j + 1 THEN x ELSE A.m[p][q] BY <1>1, <1>4 DEF Rows, Cols
<1> HIDE DEF M
<1>7. SetCell(A, i, j, x) = [r |-> A.r, c |-> A.c, m |-> M] BY <1>2, <1>3
<1> QED BY <1>5, <1>6, <1>7 DEF IsGrid, Grids

THEOREM OneRow ==
  ASSUME NEW V, NEW A, IsGrid(A, V), NEW i \in Int, RowIn(A, i), NEW s \in [1 .. A.c -> V]
  PROVE  LET B == SetRow(A, i, s)
         IN  /\ IsGrid(B, V) /\ B.r = A.r /\ B.c = A.c
             /\ \A p \in Rows(A), q \in Cols(A) : B.m[p][q] = IF p = i + 1 THEN s[q] ELSE A.m[p][q]
<1>1. A = [r |-> A.r, c |-> A.c, m |-> A.m] /\ A.m \in [1 .. A.r -> [1 .. A.c -> V]] BY DEF IsGrid, Grids
<1> DEFINE M == [A.m EXCEPT ![i + 1] = s]
<1>2. SetRow(A, i, s) = [A EXCEPT !.m = M] BY <1>1 DEF SetRow
<1>3. [A EXCEPT !.m = M] = [r |-> A.r, c |-> A.c, m |-> M] BY <1>1
<1>4. i + 1 \in 1 .. A.r BY DEF RowIn, IsGrid
<1>5. M \in [1 .. A.r -> [1 .. A.c -> V]] BY <1>1, <1>4
<1>6. \A p \in Rows(A), q \in Cols(A) : M[p][q] = IF p = i + 1 THEN s[q] ELSE A.m[p][q] BY <1>1, <1>4 DEF Rows, Cols
<1> HIDE DEF M
<1>7. SetRow(A, i, s) = [r |-> A.r, c |-> A.c, m |-> M] BY <1>2, <1>3
<1> QED BY <1>5, <1>6, <1>7 DEF IsGrid, Grids

THEOREM OneCol ==
  ASSUME NEW V, NEW A, IsGrid(A, V), NEW j \in Int, ColIn(A, j), NEW s \in [1 .. A.r -> V]
  PROVE  LET B == SetCol(A, j, s)
         IN  /\ IsGrid(B, V) /\ B.r = A.r /\ B.c = A.c
             /\ \A p \in Rows(A), q \in Cols(A) : B.m[p][q] = IF q = j + 1 THEN s[p] ELSE A.m[p][q]
<1>1. A = [r |-> A.r, c |-> A.c, m |-> A.m] /\ A.m \in [1 .. A.r -> [1 .. A.c -> V]] BY DEF IsGrid, Grids
<1> DEFINE M == [i \in 1 .. A.r |-> [A.m[i] EXCEPT ![j + 1] = s[i]]]
<1>2. SetCol(A, j, s) = [A EXCEPT !.m = M] BY DEF SetCol
<1>3. [A EXCEPT !.m = M] = [r |-> A.r, c |-> A.c, m |-> M] BY <1>1
<1>4. j + 1 \in 1 .. A.c BY DEF ColIn, IsGrid
<1>5. M \in [1 .. A.r -> [1 .. A.c -> V]] BY <1>1, <1>4
<1>6. \A p \in Rows(A), q \in Cols(A) : M[p][q] = IF q = j + 1 THEN s[p] ELSE A.m[p][q] BY <1>1, <1>4 DEF Rows, Cols
<1> HIDE DEF M
<1>7. SetCol(A, j, s) = [r |-> A.r, c |-> A.c, m |-> M] BY <1>2, <1>3
<1> QED BY <1>5, <1>6, <1>7 DEF IsGrid, Grids

\* Only the matrix that is named.
THEOREM OthersStay ==
  ASSUME NEW H, NEW e, e.a \in DOMAIN H, H = [o \in DOMAIN H |-> H[o]]
  PROVE  DOMAIN Written(H, e) = DOMAIN H /\ \A o \in DOMAIN H : o # e.a => Written(H, e)[o] = H[o]
BY DEF Written, WriteOps

\* What comes back is what was written last: reads after a write of the same cell, and of any other.
THEOREM ReadBack ==
  ASSUME NEW V, NEW A, IsGrid(A, V), NEW i \in Int, NEW j \in Int, RowIn(A, i), ColIn(A, j), NEW x \in V
  PROVE  Col(SetCell(A, i, j, x), j)[i + 1] = x
<1> DEFINE B == SetCell(A, i, j, x)
<1>1. B.r = A.r /\ B.m[i + 1][j + 1] = x BY OneCell DEF RowIn, ColIn, IsGrid, Rows, Cols
<1> HIDE DEF B
<1>2. i + 1 \in 1 .. B.r BY <1>1 DEF RowIn, IsGrid
<1>3. Col(B, j)[i + 1] = x BY <1>1, <1>2 DEF Col
<1> QED BY <1>3 DEF B
=============================================================================
