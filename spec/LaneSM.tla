------------------------------- MODULE LaneSM -------------------------------
(* C27.  Lanes: sequences of calls on objects of their own.  What a lane    *)
(* returns is a function of how far it has got and of nothing else.  State: *)
(*   alone  results of each lane when it ran alone                          *)
(*   at     how far each lane has got in each run                           *)
EXTENDS Mat, Clauses

LaneStart == [alone |-> [x \in {} |-> 0], at |-> [x \in {} |-> 0]]
LaneWith(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(s, run, lane) == IF <<run, lane>> \in DOMAIN s.at THEN s.at[<<run, lane>>] ELSE 0

ResultsClose(R, Q) == Len(R) = Len(Q) /\ \A i \in 1 .. Len(R) :
  /\ R[i].r = Q[i].r /\ R[i].c = Q[i].c /\ Len(R[i].m) = Len(Q[i].m)
  /\ \A p \in 1 .. Len(R[i].m) : Len(R[i].m[p]) = Len(Q[i].m[p]) /\ \A q \in 1 .. Len(R[i].m[p]) : NClose(R[i].m[p][q], Q[i].m[p][q], NLit("1e-9"), N1)

LaneAccept(s, e) ==
  CASE e.op = "alone" ->
         /\ Assert(e.k = At(s, "alone", e.lane) + 1, "lane out of order")
         /\ Clause(e, "C27", "crashed", e.st # "panic")
         /\ ChangesOnly(e, "C27", SeqRange(e.mine))
    [] e.op = "step" ->
         LET A == s.alone[<<e.lane, e.k>>]
         IN  /\ Assert(e.k = At(s, e.run, e.lane) + 1, "lane out of order")
             /\ Clause(e, "C27", "ends otherwise than alone", e.st = A.st)
             /\ ClauseX(e, "C27", "another result than alone", e.st = "ok" => ResultsClose(e.res, A.res), A)
             /\ ChangesOnly(e, "C27", SeqRange(e.mine))

LanePost(s, e) ==
  CASE e.op = "alone" -> [s EXCEPT !.alone = LaneWith(s.alone, <<e.lane, e.k>>, [st |-> e.st, res |-> IF e.st = "ok" THEN e.res ELSE <<>>]),
                                   !.at = LaneWith(s.at, <<"alone", e.lane>>, e.k)]
    [] e.op = "step" -> [s EXCEPT !.at = LaneWith(s.at, <<e.run, e.lane>>, e.k)]
=============================================================================
