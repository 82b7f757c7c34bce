------------------------------ MODULE GenLife -------------------------------
(* Random histories of a layer's life. *)
EXTENDS Life, TLC, Json
CONSTANTS MaxLen
VARIABLES st, hist
Init == st = Start /\ hist = <<>>
Kinds(X) == { x.o : x \in X }
Next == Len(hist) < MaxLen /\
  \E X \in {Ops(st, {1, 2, 3}, 4, 3)} : \E k \in {IF "load" \in Kinds(X) /\ RandomElement(1 .. 10) <= 3 THEN "load" ELSE RandomElement(Kinds(X))} : \E op \in {RandomElement({ x \in X : x.o = k })} :
    st' = Apply(st, op) /\ hist' = Append(hist, op)
    /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist'])))
=============================================================================
