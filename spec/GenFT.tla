------------------------------- MODULE GenFT --------------------------------
(* Random programs over four field types. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
Draw(S) == RandomElement(S)
Kinds == <<"new", "new", "select", "select", "sorted", "group", "add", "add", "restrict", "cmp", "cmp", "look", "look", "late">>
Op(k) == [o |-> k, s |-> Draw(1 .. 4), t |-> Draw(1 .. 4), d |-> Draw(1 .. 4), f |-> Draw(1 .. 12),
          fs |-> IF k = "new" THEN [j \in 1 .. Draw(1 .. 5) |-> Draw(1 .. 6)] ELSE <<>>,
          ix |-> IF k = "select" THEN (IF Draw(1 .. 3) = 1 THEN [j \in 1 .. Draw(0 .. 4) |-> Draw(-2 .. 5)] ELSE [j \in 1 .. Draw(1 .. 6) |-> Draw(0 .. 4)]) ELSE <<>>,
          lb |-> IF k = "group" THEN [j \in 1 .. 12 |-> Draw(1 .. 3)] ELSE <<>>]
Init == hist = <<>>
Next == Len(hist) < MaxLen /\ \E k \in {Kinds[RandomElement(1 .. Len(Kinds))]} : \E op \in {Op(k)} :
  hist' = Append(hist, op) /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist'])))
=============================================================================
