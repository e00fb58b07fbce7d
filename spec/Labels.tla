------------------------------- MODULE Labels -------------------------------
(* C23, C24.  Labels as classes and as rows.                                 *)
EXTENDS Integers, Sequences

\* the first position of a largest entry
Best(row, n, j, Less(_, _)) ==
  /\ j \in 1 .. n
  /\ \A k \in 1 .. n : ~Less(row[j], row[k])
  /\ \A k \in 1 .. j - 1 : Less(row[k], row[j])
FirstLargest(row, Less(_, _)) == CHOOSE j \in 1 .. Len(row) : Best(row, Len(row), j, Less)
\* the row of a label, n entries wide
LabelRow(n, Is(_), zero, one) == [j \in 1 .. n |-> IF Is(j) THEN one ELSE zero]
=============================================================================
