-------------------------------- MODULE FnSM --------------------------------
(* C07, C08, C23, C24, C25, C29: losses, metrics, label encoding, shuffling, *)
(* activation functions on their own.                                        *)
(* State: the losses that were created, with their sizes.                   *)
EXTENDS Losses, Layers, Cells, Clauses

FnStart == [o \in {} |-> 0]
FWithKey(s, k, v) == [o \in DOMAIN s \cup {k} |-> IF o = k THEN v ELSE s[o]]

ValueOK(kind, v, P, Y) == NClose(v, LossValue(kind, P, Y), NLit("1e-11"), NLit("0.01"))
GradOK(kind, G, P, Y) == MCloseS(G, LossGrad(kind, P, Y), NLit("1e-11"), GradMag(kind, P, Y))

RowsSumToOne(P) == \A i \in 1 .. P.r :
  /\ NClose(NSum(P.c, LAMBDA j : P.m[i][j]), N1, NLit("1e-10"), N1)
  /\ \A j \in 1 .. P.c : NLe(N0, P.m[i][j]) /\ NLe(P.m[i][j], N1)
Pairs(X, Y) == [i \in 1 .. X.r |-> <<X.m[i], Y.m[i]>>]
Count(s, x) == CountIf(Len(s), LAMBDA i : s[i] = x)
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in SeqRange(s) \cup SeqRange(t) : Count(s, x) = Count(t, x)
Factorial[k \in 0 .. 12] == IF k = 0 THEN 1 ELSE k * Factorial[k - 1]

Expected(n, times) == LET all == NInt(Factorial[n]) IN NTrunc(NMul(all, NSub(N1, NExp(NNeg(NDiv(NInt(times), all))))))
\* What an activation function gives for A, or a gradient function for A and B.
ActKind(fn) == CASE fn \in {"relu", "relup"} -> "hidden" [] fn \in {"leaky", "leakyp"} -> "leaky" [] fn \in {"sigmoid", "sigmoidp"} -> "sigmoid" [] OTHER -> "softmax"
ActValue(fn, A, B, s) ==
  LET l == [kind |-> ActKind(fn), par |-> s]
  IN  CASE fn = "clip" -> MMap(A, ClipP)
        [] fn \in {"relup", "leakyp"} -> PreGrad(l, B, A)
        [] fn = "sigmoidp" -> PreGrad(l, A, B)
        [] OTHER -> Activate(l, A)
ActOK(e, E) ==
  CASE e.fn \in {"relu", "clip"} -> MSame0(e.res, E)
    [] e.fn \in {"relup", "leaky", "leakyp"} -> MClose(e.res, E, NLit("1e-14"))
    [] e.fn = "sigmoidp" -> MCloseS(e.res, E, NLit("1e-14"), e.b)
    [] OTHER -> MClose(e.res, E, NLit("1e-11"))

FnAccept(s, e) ==
  CASE e.op = "newloss" ->
         IF e.size >= 1 THEN IsOk(e, "C07") ELSE IsErr(e, "C07")
    [] e.op = "loss" ->
         LET L == s[e.o]
         IN  /\ IF LossFits(L.size, e.p, e.y)
                THEN /\ IsOk(e, "C07")
                     /\ ClauseX(e, "C07", "wrong loss", e.st = "ok" => ValueOK(L.kind, e.val, e.p, e.y), LossValue(L.kind, e.p, e.y))
                     /\ Clause(e, "C07", "loss is not finite", e.st = "ok" => NFinite(e.val))
                ELSE IsErr(e, "C07")
             /\ NoChange(e, "C07")
    [] e.op = "grad" ->
         LET L == s[e.o]
         IN  /\ IF LossFits(L.size, e.p, e.y)
                THEN /\ IsOk(e, "C08")
                     /\ ClauseX(e, "C08", "wrong gradient", e.st = "ok" => GradOK(L.kind, e.res, e.p, e.y), LossGrad(L.kind, e.p, e.y))
                     /\ Clause(e, "C08", "gradient is not finite", e.st = "ok" => MFinite(e.res))
                ELSE IsErr(e, "C08")
             /\ NoChange(e, "C08")
    [] e.op = "acc" ->
         /\ IsOk(e, "C23")
         /\ ClauseX(e, "C23", "wrong accuracy", e.st = "ok" => NClose(e.val, Accuracy(e.kind, e.p, e.y, e.prec), NLit("1e-12"), N1), Accuracy(e.kind, e.p, e.y, e.prec))
         /\ NoChange(e, "C23")
    [] e.op = "bulk" ->
         \* r x c entries, of which the first k (of samples: k) are wrong; the largest entry of every row is at `at`
         /\ IsOk(e, "C23")
         /\ e.kind # "argmax" =>
              LET N == IF e.kind = "categorical" THEN e.r ELSE e.r * e.c
                  bad == IF e.kind = "categorical" /\ e.at = e.other THEN 0 ELSE e.k
                  v == NDiv(NInt(N - bad), NInt(N))
              IN  ClauseX(e, "C23", "wrong accuracy", e.st = "ok" => NClose(e.val, v, NLit("1e-12"), N1), v)
         /\ e.kind = "argmax" => Clause(e, "C23", "not the index of the largest entry", e.st = "ok" => e.rows = e.r /\ e.cols = 1 /\ e.diff = <<>>)
    [] e.op = "argmax" ->
         /\ IsOk(e, "C23")
         /\ ClauseX(e, "C23", "not the index of the largest entry", e.st = "ok" => MSame0(e.res, ArgMaxes(e.p)), ArgMaxes(e.p))
         /\ NoChange(e, "C23")
    [] e.op = "binary" ->
         /\ IsOk(e, "C23")
         /\ ClauseX(e, "C23", "wrong binary decisions", e.st = "ok" => MSame0(e.res, Binary(e.p)), Binary(e.p))
         /\ NoChange(e, "C23")
    [] e.op = "onehot" ->
         /\ IF OneHotValid(e.x, e.k)
            THEN /\ IsOk(e, "C24")
                 /\ ClauseX(e, "C24", "wrong encoding", e.st = "ok" => MSame0(e.res, OneHot(e.x, e.k)), OneHot(e.x, e.k))
                 /\ Clause(e, "C24", "the classes do not come back", Has(e, "back") => e.st = "ok" /\ MSame0(e.back, e.x))
            ELSE IsErr(e, "C24")
         /\ NoChange(e, "C24")
    [] e.op = "poke" ->
         \* the caller changes a cell of a result: no other cell changes with it, nor what it was made from
         LET p == IF e.of = "onehot" THEN "C24" ELSE "C23"
         IN  /\ Clause(e, p, "cells of the result share their storage", MSame(e.res, SetCell(e.was, e.row, e.col, e.x)))
             /\ NoChange(e, p)
    [] e.op = "act" ->
         LET E == ActValue(e.fn, e.a, e.b, e.s)
         IN  /\ IsOk(e, "C29")
             /\ ClauseX(e, "C29", "wrong value", e.st = "ok" => ActOK(e, E), E)
             /\ Clause(e, "C29", "no distribution", e.st = "ok" /\ e.fn = "softmax" => RowsSumToOne(e.res))
             \* The first argument may be given back with the result in it.
             /\ ChangesOnly(e, "C29", IF e.fn = "clip" THEN {} ELSE {"A"})
    [] e.op = "shuffle" ->
         /\ IsOk(e, "C25")
         /\ Clause(e, "C25", "result has another size", e.st = "ok" =>
              /\ WF(e.rx) /\ WF(e.ry) /\ SameShape(e.rx, e.x) /\ SameShape(e.ry, e.y))
         /\ Clause(e, "C25", "samples and labels are not the same pairs", e.st = "ok" => SameBag(Pairs(e.rx, e.ry), Pairs(e.x, e.y)))
    [] e.op = "reach" ->
         /\ IsOk(e, "C25")
         /\ Clause(e, "C25", "an order is never reached", Cardinality(SeqRange(e.orders)) = Factorial[e.n])
         /\ Clause(e, "C25", "not a permutation", \A o \in SeqRange(e.orders) : SeqRange(o) = 1 .. e.n)
    [] e.op = "many" ->
         \* Of T independent shuffles of n samples about n! * (1 - exp(-T / n!)) are different; with the same
         \* wide margin for orders that are likelier than others.
         LET E == Expected(e.n, e.times)
         IN  IsOk(e, "C25") /\ ClauseX(e, "C25", "only few orders are ever reached", 100 * e.distinct > 82 * E, <<e.distinct, E>>)
    [] e.op = "places" ->
         IsOk(e, "C25") /\ Clause(e, "C25", "a sample never reaches some place", \A i \in 1 .. e.n, j \in 1 .. e.n : e.cnt[i][j] > 0)
    [] e.op = "mixed" ->
         \* What e.times shuffles of e.n samples did.  Wide bounds: every order has to be possible, but not as likely as any other.
         LET places == e.times * (e.n - 1)
         IN  /\ IsOk(e, "C25")
             /\ ClauseX(e, "C25", "samples never stay in place", e.fixed > 0, e.fixed)
             /\ ClauseX(e, "C25", "neighbours stay together, or never do", e.next > 0 /\ 3 * e.next < places, e.next)
             /\ ClauseX(e, "C25", "samples keep their relative order", 5 * e.up > places /\ 5 * e.up < 4 * places, e.up)
             /\ ClauseX(e, "C25", "orders of one parity only", 10 * e.even > e.times /\ 10 * e.even < 9 * e.times, e.even)
             /\ e.n >= 60 => \A i, j \in 1 .. 20 : ClauseX(e, "C25", "samples keep to a part of the set", e.blocks[i][j] > 0, <<i, j, e.blocks[i][j]>>)
    [] e.op = "differ" ->
         IsOk(e, "C25") /\ Clause(e, "C25", "repeated shuffles give the same order", e.same = 0)

FnPost(s, e) ==
  IF e.op = "newloss" /\ e.st = "ok" THEN FWithKey(s, e.o, [kind |-> e.kind, size |-> e.size]) ELSE s
=============================================================================
