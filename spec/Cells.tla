------------------------------- MODULE Cells -------------------------------
(* Reads and writes of single cells, rows and columns of named matrices H.  *)
(* Matrices are [r, c, m], indices of calls start at 0.                     *)
EXTENDS Integers, Sequences

MInRange(A, e) == e.row >= 0 /\ e.row < A.r /\ e.col >= 0 /\ e.col < A.c
RowIn(A, i) == i >= 0 /\ i < A.r
ColIn(A, j) == j >= 0 /\ j < A.c
Col(A, j) == [i \in 1 .. A.r |-> A.m[i][j + 1]]

SetCell(A, i, j, x) == [A EXCEPT !.m[i + 1][j + 1] = x]
SetRow(A, i, s) == [A EXCEPT !.m[i + 1] = s]
SetCol(A, j, s) == [A EXCEPT !.m = [i \in 1 .. A.r |-> [A.m[i] EXCEPT ![j + 1] = s[i]]]]

WriteOps == {"set", "setrow", "setcol"}
MayWrite(H, e) ==
  LET A == H[e.a]
  IN  CASE e.op = "set" -> MInRange(A, e)
        [] e.op = "setrow" -> RowIn(A, e.row) /\ Len(e.s) = A.c
        [] e.op = "setcol" -> ColIn(A, e.col) /\ Len(e.s) = A.r

Written(H, e) ==     \* heap after the writes that e asks for
  CASE e.op \in WriteOps /\ ~MayWrite(H, e) -> H
    [] e.op = "set" -> [H EXCEPT ![e.a] = SetCell(@, e.row, e.col, e.x)]
    [] e.op = "setrow" -> [H EXCEPT ![e.a] = SetRow(@, e.row, e.s)]
    [] e.op = "setcol" -> [H EXCEPT ![e.a] = SetCol(@, e.col, e.s)]
    [] e.op = "poke" -> [H EXCEPT ![e.a] = SetCell(@, e.row, e.col, e.x)]      \* by the caller, in the matrix' own storage
    [] OTHER -> H
=============================================================================
