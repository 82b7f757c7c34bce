------------------------------- MODULE GenBN --------------------------------
(* Random histories of a batch-normalisation layer. *)
EXTENDS BN, TLC, Json
CONSTANTS MaxLen
VARIABLES w, hist
Init == w = [cur |-> Start(0), saved |-> <<>>] /\ hist = <<>>
Next == Len(hist) < MaxLen /\
  \E k \in {IF RandomElement(1 .. 10) <= 6 THEN "pass" ELSE RandomElement({ x.o : x \in Ops(w, {1}) })} :
  \E op \in {RandomElement({ x \in Ops(w, {1, 2, 3}) : x.o = k })} :
    w' = Apply(w, 100, op, <<>>) /\ hist' = Append(hist, op)
    /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist'])))
=============================================================================
