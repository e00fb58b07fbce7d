----------------------------- MODULE CodecModel -----------------------------
(* C19, C20, C21.  Reading is the inverse of writing; every proper prefix   *)
(* of a saved model is refused; reading stops exactly at the end.  Emits    *)
(* hand-written models, for the real loader to read.                        *)
EXTENDS Codec, Json, Out
CONSTANTS Sizes
VARIABLES m, tweak
cvars == <<m, tweak>>

One8 == <<0, 0, 0, 0, 0, 0, 240, 63>>      \* 1
Tenth8 == <<154, 153, 153, 153, 153, 153, 185, 63>>
MinusTwo8 == <<0, 0, 0, 0, 0, 0, 0, 192>>
W(n) == [i \in 1 .. n |-> <<i % 256, 17, 0, 0, 0, 3, (40 * i) % 240, 64>>]
Lay(code, in, out) == [code |-> code, in |-> in, out |-> out, slope |-> Tenth8, drop |-> IF code = 5 THEN Tenth8 ELSE Zero8, w |-> W(in * out), b |-> W(out)]
Perms(S) == {f \in [1 .. Cardinality(S) -> S] : \A x \in S : \E i \in DOMAIN f : f[i] = x}
ValsOf(order) == [i \in 1 .. Len(order) |-> <<KeyBytes[order[i]], IF order[i] = "learningRate" THEN Tenth8 ELSE IF i % 2 = 0 THEN Zero8 ELSE One8>>]
Stacks == {<<Lay(c, i, o)>> : c \in 0 .. 5, i \in Sizes, o \in Sizes} \cup {<<Lay(c, 1, i), Lay((c + d) % 6, i, 2)>> : c \in 0 .. 5, d \in 0 .. 2, i \in Sizes}
Make(ls, loss, acc, opt, order) ==
  [version |-> <<49, 46, 48, 46, 51>>, in |-> ls[1].in, out |-> ls[Len(ls)].out, loss |-> loss, acc |-> acc, prec |-> Tenth8, opt |-> opt, vals |-> ValsOf(order), layers |-> ls]

\* Changes that a loader has to notice, or has to read as they are.
Tweaks == {"", "version", "magic", "loss 4", "loss 255", "opt 2", "opt 255", "layer 6", "layer 255", "no layers", "one more", "one less", "n 255", "vals 255", "key 255", "key 0",
           "out wrong", "out negative", "in negative layer", "zero layer", "huge layer", "layer magic", "precision negative", "chain", "acc 3", "header in", "duplicate value", "missing value", "unknown value", "rate 0", "n 255 empty", "vals 255 empty"}
Patch(b, p, v) == [b EXCEPT ![p] = v]
FirstLayer(mm) == Len(EncModel([mm EXCEPT !.layers = <<>>])) + 1
Tweaked ==
  LET b == EncModel(m)
      l == FirstLayer(m)
  IN  CASE tweak = "" -> b
        [] tweak = "version" -> Patch(Patch(b, 5, 57), 9, 0)
        [] tweak = "magic" -> Patch(b, 3, 78)
        [] tweak = "loss 4" -> Patch(b, 19, 4)
        [] tweak = "loss 255" -> Patch(b, 19, 255)
        [] tweak = "opt 2" -> Patch(b, 29, 2)
        [] tweak = "opt 255" -> Patch(b, 29, 255)
        [] tweak = "layer 6" -> Patch(b, l + 2, 6)
        [] tweak = "layer 255" -> Patch(b, l + 2, 255)
        [] tweak = "no layers" -> Patch(b, 10, 0)
        [] tweak = "one more" -> Patch(b, 10, Len(m.layers) + 1)
        [] tweak = "one less" -> Patch(b, 10, Len(m.layers) - 1)
        [] tweak = "n 255" -> Patch(b, 10, 255)
        [] tweak = "vals 255" -> Patch(b, 30, 255)
        [] tweak = "n 255 empty" -> Patch(EncModel([m EXCEPT !.layers = <<>>, !.out = 0]), 10, 255)
        [] tweak = "vals 255 empty" -> Patch(EncModel([m EXCEPT !.vals = <<>>]), 30, 255)
        [] tweak = "key 255" -> Patch(b, 31, 255)
        [] tweak = "key 0" -> Patch(b, 31, 0)
        [] tweak = "out wrong" -> Patch(b, 15, m.out + 1)
        [] tweak = "out negative" -> Patch(b, 18, 128)
        [] tweak = "in negative layer" -> Patch(b, l + 6, 255)
        [] tweak = "zero layer" -> Patch(b, l + 7, 0)
        [] tweak = "huge layer" -> Patch(Patch(b, l + 6, 127), l + 10, 127)
        [] tweak = "layer magic" -> Patch(b, l, 77)
        [] tweak = "precision negative" -> Patch(b, 28, 191)
        [] tweak = "chain" -> EncModel([m EXCEPT !.layers = <<Lay(1, m.in, m.layers[1].in + 1)>> \o @])
        [] tweak = "acc 3" -> Patch(b, 20, 3)
        [] tweak = "header in" -> Patch(b, 11, 9)
        [] tweak = "duplicate value" -> EncModel([m EXCEPT !.vals = Append(@, @[1])])
        [] tweak = "missing value" -> EncModel([m EXCEPT !.vals = Tail(@)])
        [] tweak = "unknown value" -> EncModel([m EXCEPT !.vals = Append(@, <<<<120, 121>>, One8>>)])
        [] tweak = "rate 0" -> EncModel([m EXCEPT !.vals = [i \in 1 .. Len(@) |-> IF @[i][1] = KeyBytes["learningRate"] THEN <<@[i][1], Zero8>> ELSE @[i]]])

\* all orders of the sgd values, a few of the adam values
Orders(opt) ==
  IF opt = 0 THEN Perms(KeysOf("sgd"))
  ELSE {<<"learningRate", "decay", "epsilon", "beta1", "beta2">>, <<"beta2", "beta1", "epsilon", "decay", "learningRate">>, <<"decay", "beta2", "learningRate", "beta1", "epsilon">>}
Canon(ls) == Make(ls, 0, 0, 0, <<"learningRate", "decay", "momentum">>)
Init == \E ls \in Stacks : m = Canon(ls) /\ tweak = ""
Vary == /\ m = Canon(m.layers) /\ tweak = ""
        /\ \E loss \in 0 .. 3, opt \in 0 .. 1 : \E order \in Orders(opt) : m' = Make(m.layers, loss, (loss + Len(order)) % 3, opt, order)
        /\ UNCHANGED tweak
Damage == /\ tweak = "" /\ m.layers[1].in = 1 /\ m.loss = m.layers[1].code % 4
          /\ tweak' \in Tweaks \ {""}
          /\ UNCHANGED m
Next == Vary \/ Damage

D == DecModel(Tweaked, 1)
RoundTrip == tweak = "" => D.ok /\ D.v = m /\ D.at = Len(Tweaked) + 1
Size == Len(EncModel(m)) = 30 + (IF m.opt = 0 THEN 3 * 9 + 12 + 5 + 8 ELSE 5 * 9 + 12 + 5 + 7 + 5 + 5)
          + (LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE 27 + 8 * (m.layers[k].in + 1) * m.layers[k].out + S(k - 1) IN S(Len(m.layers)))
Prefixes == tweak = "" => \A k \in 0 .. Len(Tweaked) - 1 : ~DecModel(SubSeq(Tweaked, 1, k), 1).ok
Shifted == tweak = "" => LET b == <<1, 2, 3>> \o Tweaked \o <<76, 65, 0>> IN DecModel(b, 4) = [D EXCEPT !.at = @ + 3]
MustRefuse == {"magic", "loss 4", "loss 255", "opt 2", "opt 255", "layer 6", "layer 255", "no layers", "one more", "n 255", "vals 255", "key 255", "out wrong", "out negative", "in negative layer", "zero layer", "huge layer", "layer magic", "precision negative", "chain", "n 255 empty", "vals 255 empty"}
MayRead == {"", "version", "acc 3", "header in", "duplicate value", "missing value", "unknown value", "rate 0"}
Noticed == /\ tweak \in MustRefuse => ~D.ok
           /\ tweak \in MayRead => D.ok
           /\ tweak \in {"", "version"} => ProperModel(D.v)
           /\ tweak \in {"acc 3", "header in", "duplicate value", "missing value", "unknown value", "rate 0"} => ~ProperModel(D.v)
Layers == \A i \in 1 .. Len(m.layers) : LET b == EncLayer(m.layers[i]) IN
             /\ DecLayer(b, 1) = [ok |-> TRUE, at |-> Len(b) + 1, v |-> m.layers[i]]
             /\ \A k \in {0, 1, 2, 3, 10, 26, Len(b) - 1} : ~DecLayer(SubSeq(b, 1, k), 1).ok
EmitBytes == Line(ToJson([b |-> Tweaked, tw |-> tweak]))
=============================================================================
