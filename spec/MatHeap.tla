------------------------------ MODULE MatHeap ------------------------------
(* C01, C02.  State: a heap of named matrices.  Every operation of the      *)
(* library on matrices is a transition of this heap.                        *)
EXTENDS Mat, Cells, Clauses

\* ---- what the operations mean ----
Rectangular(rows) == Len(rows) >= 1 /\ Len(rows[1]) >= 1 /\ \A i \in 1 .. Len(rows) : Len(rows[i]) = Len(rows[1])

ArithOps == {"add", "sub", "neg", "adds", "muls", "pows", "dot", "tr", "sum", "eq"}
Fits(H, e) ==
  CASE e.op \in {"add", "sub"} -> SameShape(H[e.a], H[e.b])
    [] e.op = "dot" -> H[e.a].c = H[e.b].r
    [] OTHER -> TRUE

Result(H, e) ==
  LET A == H[e.a]
  IN  CASE e.op = "add" -> MAdd(A, H[e.b])
        [] e.op = "sub" -> MSub(A, H[e.b])
        [] e.op = "neg" -> MNeg(A)
        [] e.op = "adds" -> MAddS(A, e.x)
        [] e.op = "muls" -> MMulS(A, e.x)
        [] e.op = "pows" -> MPowS(A, e.x)
        [] e.op = "dot" -> MDot(A, H[e.b])
        [] e.op = "tr" -> MT(A)
        [] e.op = "sum" -> MSum(A, e.axis)

\* The size of the terms that were added up.
Magnitude(H, e) ==
  LET A == MAbs(H[e.a])
  IN  CASE e.op = "add" \/ e.op = "sub" -> MAdd(A, MAbs(H[e.b]))
        [] e.op = "adds" -> MAddS(A, NAbs(e.x))
        [] e.op = "dot" -> MDot(A, MAbs(H[e.b]))
        [] e.op = "sum" -> MSum(A, e.axis)
        [] OTHER -> Zeros(1, 1)

Exact == {"tr", "neg"}       \* no rounding at all
ArithOK(H, e) ==
  IF e.op = "eq" THEN e.st = "ok" /\ e.res = MEq(H[e.a], H[e.b])
  ELSE IF e.op \in Exact THEN MSame0(e.res, Result(H, e))
  ELSE IF e.op \in {"add", "sub", "dot", "adds", "sum"} THEN MCloseS(e.res, Result(H, e), NLit("1e-12"), Magnitude(H, e))
  ELSE MClose(e.res, Result(H, e), NLit("1e-12"))

\* ---- the transition ----
\* The heap the real code is in: what it was, and what the harness saw changing.
Observed(H, e) == [o \in DOMAIN H |-> IF o \in Chg(e) THEN e.chv[o] @@ H[o] ELSE H[o]]

\* Slices that reads returned are kept, too: [r |-> 1, c, m, of], of being the
\* matrix they were read from.
Put(H, o, x) == [k \in DOMAIN H \cup {o} |-> IF k = o THEN x ELSE H[k]]
Bind(H, e) ==
  IF e.st # "ok" THEN H
  ELSE IF Has(e, "d") THEN Put(H, e.d, e.res)
  ELSE IF Has(e, "got") THEN Put(H, e.got, [r |-> 1, c |-> Len(e.vals), m |-> <<e.vals>>, of |-> e.a])
  ELSE H

\* It is left open whether a slice that was read follows later writes to its matrix.
Follows(H, o, e) == Has(H[o], "of") /\ e.op \in WriteOps \cup {"poke"} /\ H[o].of = e.a

HeapOK(H, e) ==
  LET W == Written(H, e)
      O == Observed(H, e)
  IN  \A o \in DOMAIN H : (o \in Chg(e) \/ W[o] # H[o]) => MSame(O[o], W[o]) \/ Follows(H, o, e)

SeqSame(s, u) == Len(s) = Len(u) /\ \A i \in 1 .. Len(s) : NSame(s[i], u[i])
HeapAccept(H, e) ==
  CASE e.op = "let" -> TRUE
    [] e.op \in ArithOps ->
         /\ IF Fits(H, e)
            THEN /\ IsOk(e, "C01")
                 /\ Clause(e, "C01", "wrong result", e.st = "ok" => ArithOK(H, e))
            ELSE IsErr(e, "C01")
         /\ Clause(e, "C01", "changed an operand or another matrix", HeapOK(H, e))
    [] e.op = "poke" -> Clause(e, "C01", "a change of one matrix shows in another", HeapOK(H, e))
    [] e.op = "new" ->
         IF e.r >= 1 /\ e.c >= 1
         THEN IsOk(e, "C02") /\ Clause(e, "C02", "not a zero matrix of that size", e.st = "ok" => MSame(e.res, Zeros(e.r, e.c)))
         ELSE IsErr(e, "C02")
    [] e.op = "slice" ->
         IF Rectangular(e.rows)
         THEN IsOk(e, "C02") /\ Clause(e, "C02", "not the given rows", e.st = "ok" =>
                MSame(e.res, [r |-> Len(e.rows), c |-> Len(e.rows[1]), m |-> e.rows]))
         ELSE IsErr(e, "C02")
    [] e.op = "get" ->
         /\ IF MInRange(H[e.a], e)
            THEN IsOk(e, "C02") /\ Clause(e, "C02", "wrong value", e.st = "ok" => NSame(e.val, H[e.a].m[e.row + 1][e.col + 1]))
            ELSE IsErr(e, "C02")
         /\ Clause(e, "C02", "a read changed a matrix", HeapOK(H, e))
    [] e.op = "getrow" ->
         /\ IF RowIn(H[e.a], e.row)
            THEN IsOk(e, "C02") /\ Clause(e, "C02", "wrong row", e.st = "ok" => SeqSame(e.vals, H[e.a].m[e.row + 1]))
            ELSE IsErr(e, "C02")
         /\ Clause(e, "C02", "a read changed a matrix", HeapOK(H, e))
    [] e.op = "getcol" ->
         /\ IF ColIn(H[e.a], e.col)
            THEN IsOk(e, "C02") /\ Clause(e, "C02", "wrong column", e.st = "ok" => SeqSame(e.vals, Col(H[e.a], e.col)))
            ELSE IsErr(e, "C02")
         /\ Clause(e, "C02", "a read changed a matrix", HeapOK(H, e))
    [] e.op \in {"set", "setrow", "setcol"} ->
         /\ IF MayWrite(H, e) THEN IsOk(e, "C02") ELSE IsErr(e, "C02")
         /\ Clause(e, "C02", "the matrix is not what the write makes of it", HeapOK(H, e))
    [] e.op = "mutsrc" -> Clause(e, "C02", "a later change of the written values shows in the matrix", Chg(e) = {})

HeapPost(H, e) == Bind(Observed(H, e), e)
HeapStart == [o \in {} |-> 0]
=============================================================================
