-------------------------------- MODULE Grid --------------------------------
(* C02.  One matrix and every sequence of Depth accesses to it, valid and   *)
(* invalid ones, over exact rationals.  Checked: reads see the last write,  *)
(* the size never changes, invalid accesses are no-ops.  Every complete     *)
(* sequence is emitted as a program for the real code.                      *)
EXTENDS MatHeap, Rat, Json, Out

CONSTANTS GR, GC, Depth, Full

VARIABLES H, hist
gvars == <<H, hist>>

Rows == IF Full THEN -1 .. GR ELSE 0 .. GR - 1
Cols == IF Full THEN -1 .. GC ELSE 0 .. GC - 1
Lens(n) == IF Full THEN {n - 1, n, n + 1} ELSE {n}
Fresh(n) == [i \in 1 .. n |-> 10 * (Len(hist) + 1) + i]

Calls ==
  [op : {"get"}, a : {"A"}, row : Rows, col : Cols]
  \cup [op : {"set"}, a : {"A"}, row : Rows, col : Cols, x : {10 * (Len(hist) + 1)}]
  \cup [op : {"getrow"}, a : {"A"}, row : Rows]
  \cup [op : {"getcol"}, a : {"A"}, col : Cols]
  \cup [op : {"setrow"}, a : {"A"}, row : Rows, s : {Fresh(n) : n \in Lens(GC)}]
  \cup [op : {"setcol"}, a : {"A"}, col : Cols, s : {Fresh(n) : n \in Lens(GR)}]

Init == H = [o \in {"A"} |-> Mat(GR, GC, LAMBDA i, j : 0)] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Calls : H' = Written(H, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_gvars

\* What the accesses up to the k-th left in a cell, from the history alone.
Hits(e, i, j) ==
  CASE e.op = "set" -> e.row = i /\ e.col = j
    [] e.op = "setrow" -> e.row = i /\ Len(e.s) = GC
    [] e.op = "setcol" -> e.col = j /\ Len(e.s) = GR
    [] OTHER -> FALSE
Wrote(e, i, j) == CASE e.op = "set" -> e.x [] e.op = "setrow" -> e.s[j + 1] [] e.op = "setcol" -> e.s[i + 1]
LastWrite(i, j) ==
  LET W == {k \in 1 .. Len(hist) : Hits(hist[k], i, j)}
  IN  IF W = {} THEN 0 ELSE LET k == CHOOSE k \in W : \A k2 \in W : k2 <= k IN Wrote(hist[k], i, j)

SizeFixed == H["A"].r = GR /\ H["A"].c = GC /\ Len(H["A"].m) = GR /\ \A i \in 1 .. GR : Len(H["A"].m[i]) = GC
LastWriteWins == \A i \in 0 .. GR - 1, j \in 0 .. GC - 1 : H["A"].m[i + 1][j + 1] = LastWrite(i, j)
Emit == Len(hist) = Depth => Line(ToJson(hist))
=============================================================================
