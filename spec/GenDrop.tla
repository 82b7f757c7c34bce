------------------------------ MODULE GenDrop -------------------------------
(* Random histories of a dropout layer over two tensors. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
Ops == { [o |-> "pass", s |-> s, m |-> ""] : s \in 1 .. 2 } \cup { [o |-> "mode", s |-> 0, m |-> m] : m \in {"train", "eval"} }
       \cup { [o |-> "data", s |-> s, m |-> ""] : s \in 1 .. 2 } \cup {[o |-> "copy", s |-> 0, m |-> ""]}
Init == hist = <<>>
Next == Len(hist) < MaxLen /\ \E k \in {RandomElement({"pass", "pass", "pass", "mode", "data", "copy"})} :
  \E k2 \in {IF RandomElement(1 .. 3) < 3 THEN "pass" ELSE k} :
  \E op \in {RandomElement({ x \in Ops : x.o = k2 })} : hist' = Append(hist, op)
    /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist'])))
=============================================================================
