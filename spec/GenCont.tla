------------------------------ MODULE GenCont -------------------------------
(* Random programs that build modules in four slots and run them. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
Draw(S) == RandomElement(S)
Kinds == <<"leaf", "leaf", "leaf", "seq", "seq", "multi", "multi", "multi", "append", "run", "run", "run", "run", "branch", "merge", "merge", "wrong", "list">>
Op(k) == [o |-> k, s |-> Draw(1 .. 4), t |-> Draw(1 .. 4), d |-> Draw(1 .. 4), f |-> Draw(1 .. 12), v |-> Draw({2, -1, 3}),
          ss |-> [j \in 1 .. Draw(1 .. 4) |-> Draw(1 .. 4)], lb |-> [j \in 1 .. 8 |-> Draw(1 .. 3)],
          re |-> Draw(0 .. 3), ks |-> [j \in 1 .. 6 |-> Draw(1 .. 6)]]
Init == hist = <<>>
Next == Len(hist) < MaxLen /\ \E k \in {Kinds[RandomElement(1 .. Len(Kinds))]} : \E op \in {Op(k)} :
  hist' = Append(hist, op) /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist'])))
=============================================================================
