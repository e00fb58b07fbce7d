--------------------------- MODULE AssemblyProof ---------------------------
(* C12, for any number of calls with layers, losses and optimizers of any    *)
(* sizes and kinds: the layers of a model chain; since it was last           *)
(* finalized, it has had one optimizer for each layer of then, and the loss  *)
(* fitted these.  Proved with tlapm.                                         *)
EXTENDS Assembly, TLAPS
CONSTANT Loss0                   \* no loss yet
VARIABLE s

Layers == [in : Int, out : Int, rest : STRING]
Losses == [size : Int, rest : STRING]
ASSUME NoLoss == Loss0 \notin Losses
Init == s = [lay |-> <<>>, loss |-> Loss0, opts |-> <<>>]
Next == \/ \E l \in Layers : s' = WithLayer(s, l)
        \/ \E loss \in Losses, fits \in BOOLEAN, o \in STRING : s' = WithLoss(s, loss, fits, o)

Chains == \A i \in 1 .. Depth(s) - 1 : s.lay[i].out = s.lay[i + 1].in
Finalized == s.loss # Loss0
Fitted == Finalized => /\ Len(s.opts) <= Depth(s)
                       /\ Len(s.opts) > 0 => s.lay[Len(s.opts)].out = s.loss.size
Kept == /\ s = [lay |-> s.lay, loss |-> s.loss, opts |-> s.opts]
        /\ s.lay \in Seq(Layers) /\ s.loss \in Losses \cup {Loss0} /\ s.opts \in Seq(STRING)
        /\ Chains /\ Fitted

LEMMA Start == Init => Kept
<1> SUFFICES ASSUME Init PROVE Kept OBVIOUS
<1>1. s.lay = <<>> /\ s.loss = Loss0 /\ s.opts = <<>> BY DEF Init
<1>2. s = [lay |-> s.lay, loss |-> s.loss, opts |-> s.opts] BY DEF Init
<1>3. Depth(s) = 0 BY <1>1 DEF Depth
<1> QED BY <1>1, <1>2, <1>3 DEF Kept, Chains, Fitted, Finalized

LEMMA Adding == ASSUME Kept, NEW l \in Layers, s' = WithLayer(s, l) PROVE Kept'
<1>1. CASE ~MayAdd(s, l)
  <2>1. s' = s BY <1>1 DEF WithLayer
  <2> QED BY <2>1 DEF Kept, Chains, Fitted, Finalized, Depth
<1>2. CASE MayAdd(s, l)
  <2>1. s' = [s EXCEPT !.lay = Append(s.lay, l)] BY <1>2 DEF WithLayer
  <2>2. s' = [lay |-> Append(s.lay, l), loss |-> s.loss, opts |-> s.opts] BY <2>1 DEF Kept
  <2>3. s'.lay = Append(s.lay, l) /\ s'.loss = s.loss /\ s'.opts = s.opts BY <2>2
  <2>4. s.lay \in Seq(Layers) BY DEF Kept
  <2>5. Len(s'.lay) = Len(s.lay) + 1 /\ s'.lay \in Seq(Layers) /\ Len(s.lay) \in Nat BY <2>3, <2>4
  <2>6. \A i \in 1 .. Len(s.lay) : s'.lay[i] = s.lay[i] BY <2>3, <2>4
  <2>7. s'.lay[Len(s.lay) + 1] = l BY <2>3, <2>4
  <2>8. Depth(s)' = Depth(s) + 1 /\ Depth(s) = Len(s.lay) BY <2>5 DEF Depth
  <2>9. Chains'
    <3> SUFFICES ASSUME NEW i \in 1 .. Depth(s) PROVE s'.lay[i].out = s'.lay[i + 1].in BY <2>8, <2>5 DEF Chains
    <3>1. CASE i < Depth(s) BY <3>1, <2>5, <2>6, <2>8 DEF Kept, Chains
    <3>2. CASE i = Depth(s)
      <4>1. Depth(s) # 0 BY <3>2, <2>5, <2>8
      <4>2. l.in = s.lay[Depth(s)].out BY <1>2, <4>1 DEF MayAdd, OutSize
      <4> QED BY <3>2, <4>1, <4>2, <2>5, <2>6, <2>7, <2>8
    <3> QED BY <3>1, <3>2, <2>5, <2>8
  <2>10. Fitted'
    <3>1. Len(s.opts) \in Nat BY DEF Kept
    <3> QED BY <2>3, <2>5, <2>6, <2>8, <3>1 DEF Kept, Fitted, Finalized
  <2> QED BY <2>2, <2>3, <2>5, <2>9, <2>10 DEF Kept
<1> QED BY <1>1, <1>2

LEMMA Finalizing == ASSUME Kept, NEW loss \in Losses, NEW fits \in BOOLEAN, NEW o \in STRING, s' = WithLoss(s, loss, fits, o) PROVE Kept'
<1>1. CASE ~(fits /\ MayTake(s, loss))
  <2>1. s' = s BY <1>1 DEF WithLoss
  <2> QED BY <2>1 DEF Kept, Chains, Fitted, Finalized, Depth
<1>2. CASE fits /\ MayTake(s, loss)
  <2> DEFINE new == [i \in 1 .. Depth(s) |-> o]
  <2>1. s' = [[s EXCEPT !.loss = loss] EXCEPT !.opts = new] BY <1>2 DEF WithLoss
  <2> HIDE DEF new
  <2>2. s' = [lay |-> s.lay, loss |-> loss, opts |-> new] BY <2>1 DEF Kept
  <2>3. s'.lay = s.lay /\ s'.loss = loss /\ s'.opts = new BY <2>2
  <2>4. s.lay \in Seq(Layers) /\ Len(s.lay) \in Nat BY DEF Kept
  <2>5. new \in Seq(STRING) /\ Len(new) = Depth(s) BY <2>4 DEF new, Depth
  <2>6. Depth(s)' = Depth(s) BY <2>3 DEF Depth
  <2>7. Chains' BY <2>3, <2>6 DEF Kept, Chains
  <2>8. Fitted' BY <2>3, <2>4, <2>5, <2>6, <1>2 DEF Fitted, MayTake, OutSize, Depth
  <2> QED BY <2>2, <2>3, <2>4, <2>5, <2>7, <2>8 DEF Kept
<1> QED BY <1>1, <1>2

THEOREM Safe == Init /\ [][Next]_s => [](Chains /\ Fitted)
<1>1. Kept => Chains /\ Fitted BY DEF Kept
<1>2. Kept /\ [Next]_s => Kept'
  <2>1. CASE UNCHANGED s BY <2>1 DEF Kept, Chains, Fitted, Finalized, Depth
  <2> QED BY <2>1, Adding, Finalizing DEF Next
<1> QED BY <1>1, <1>2, Start, PTL
=============================================================================
