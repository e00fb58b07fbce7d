------------------------------ MODULE LogProto ------------------------------
(* C28.  Sequences of setups and reporting calls; where each message ends.  *)
EXTENDS LogSM, Json, Out
CONSTANTS Depth
VARIABLES sink, hist, got
pvars == <<sink, hist, got>>

Names == {"a", "b"}
Inits == [op : {"init"}, verbose : BOOLEAN, file : {TRUE}, where : {"plain"}, name : Names]
         \cup [op : {"init"}, verbose : BOOLEAN, file : {FALSE}, where : {"plain"}, name : {"a", ""}]
         \cup [op : {"init"}, verbose : BOOLEAN, file : {TRUE}, where : {"missing", "dir", "full"}, name : {"c"}]
Says == [op : {"say"}, lvl : {"info", "warning", "error"}] \cup [op : {"fit", "load", "badfit"}]
Init == sink = LogStart /\ hist = <<>> /\ got = [p \in {<<"file", f>> : f \in Names} \cup {<<"stdout">>} |-> <<>>]
Next == \E c \in Inits \cup Says :
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, c)
  /\ IF c.op = "init" THEN sink' = AfterInit(sink, c) /\ UNCHANGED got
     ELSE UNCHANGED sink /\ got' = Said(got, sink, Len(hist) + 1)

\* Every message is in at most one place, in order; in none only while nothing, a quiet setup or a full device is in force.
InForce(k) == LET ok == {q \in 1 .. k : hist[q].op = "init" /\ Opens(hist[q])} IN IF ok = {} THEN 0 ELSE CHOOSE q \in ok : \A r \in ok : r <= q
Once == \A k \in 1 .. Len(hist) : hist[k].op # "init" => Cardinality({n \in DOMAIN got : k \in SeqRange(got[n])}) = (
          IF InForce(k) = 0 THEN 0 ELSE IF SinkOf(hist[InForce(k)]).kind \in {"file", "stdout"} THEN 1 ELSE 0)
InOrder == \A n \in DOMAIN got : \A i, j \in 1 .. Len(got[n]) : i < j => got[n][i] < got[n][j]
Silent == InForce(Len(hist)) = 0 => \A n \in DOMAIN got : got[n] = <<>>
EmitProg == Len(hist) = Depth => Line(ToJson(hist))
=============================================================================
