------------------------------- MODULE GenNet -------------------------------
(* Random lives of networks, with the versions that are ever computed.       *)
EXTENDS Net, TLC, Json
CONSTANTS MaxLen
VARIABLES st, hist, seen
Init == st = NStart /\ hist = <<>> /\ seen = {}
Kinds(X) == { x.o : x \in X }
Pref == <<"export", "export", "export", "pass", "pass", "update", "update", "train", "train", "eval", "copy", "save", "load", "load", "again", "cast">>
Pick(X) == LET S == { j \in 1 .. Len(Pref) : Pref[j] \in Kinds(X) } IN Pref[RandomElement(S)]
Next == Len(hist) < MaxLen /\
  \E X \in {NOps(st, {1, 2}, 5, 2, 4)} : \E k \in {Pick(X)} : \E op \in {RandomElement({ x \in X : x.o = k })} :
    /\ st' = NApply(st, op) /\ hist' = Append(hist, op)
    /\ seen' = seen \cup { Value(st'.objs[j]) : j \in { k2 \in 1 .. Len(st'.objs) : Determined(st'.objs[k2]) } }
    /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist', needs |-> seen'])))
=============================================================================
