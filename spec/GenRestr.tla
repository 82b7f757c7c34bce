------------------------------ MODULE GenRestr ------------------------------
(* Histories of growing the continuous groups, building representations and  *)
(* restricting them (slots keep every representation made so far).           *)
EXTENDS Space, Json
CONSTANTS MaxLen, MaxSize
VARIABLES slots, hist
Grp(k, n) == [k |-> k, n |-> n, c |-> FALSE]
FG == { Grp(k, n) : k \in {"C", "D"}, n \in {2, 3, 4, 6, 8, 12} }
CG == { [k |-> k, n |-> Turn, c |-> TRUE] : k \in {"C", "D"} }
CAxes == {0, 1, 315, 630, 1001, 1260}
Ids(g) ==
  IF g.c THEN { id \in ({-1} \cup CAxes) \X {-1, 1, 2, 3, 4, 6, 8} :
                  /\ ValidId(g, id) /\ (Flip(g) \/ id[2] # -1)
                  /\ ~(id[1] >= 0 /\ id[2] > 1 /\ id[1] >= Turn \div id[2]) }
  ELSE { id \in (-1 .. g.n - 1) \X (1 .. g.n) : ValidId(g, id) }
Irr(g) == IF g.c THEN IrrepsUpTo(g, 6) ELSE Irreps(g)
Reps(g) == { [t |-> "irrep", j |-> x[1], k |-> x[2]] : x \in Irr(g) }
  \cup (IF g.c \/ Order(g) > MaxSize THEN {} ELSE {[t |-> "reg"]})
  \cup (IF g.c THEN {} ELSE { [t |-> "quo", a |-> id[1], m |-> id[2]] :
          id \in { x \in Ids(g) : Order(g) \div Order(SubGroup(g, x)) <= MaxSize } })
Pick(X) == {RandomElement(X)}
SpacesOf(g) ==
  IF Flip(g) THEN { [s |-> "fliprot", g |-> g, ax2 |-> x] : x \in {0, 630, 1260, 2520, 1001, 6300} }
  ELSE {[s |-> "rot", g |-> g, ax2 |-> 0]}
       \cup (IF g.n = 2 THEN { [s |-> "flip", g |-> g, ax2 |-> x] : x \in {0, 2520, 1260, 77, 6300, 8000} } ELSE {})
Do(op, ns) == /\ hist' = Append(hist, op) /\ slots' = ns
              /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist'])))
Groups == FG \cup CG
Grow == \E g \in Pick(CG) : \E f \in Pick(0 .. 7) : Do([o |-> "grow", g |-> g, f |-> f], slots)
MakeRep == \E g \in (IF RandomElement({0, 1}) = 0 THEN Pick(CG) ELSE Pick(FG)) : \E d \in Pick(Reps(g)) :
  Do([o |-> "make", g |-> g, d |-> d], Append(slots, [g |-> g, d |-> d]))
SumRep == slots # <<>> /\ \E k \in Pick(1 .. Len(slots)) : \E x \in Pick(Reps(slots[k].g)) :
  Size(slots[k].g, slots[k].d) + Size(slots[k].g, x) <= MaxSize /\
  Do([o |-> "sum", slot |-> k, d |-> x],
     Append(slots, [g |-> slots[k].g, d |-> [t |-> "sum", s |-> <<slots[k].d, x>>]]))
Res == slots # <<>> /\ \E k \in Pick(1 .. Len(slots)) : \E id \in Pick(Ids(slots[k].g)) :
  Do([o |-> "res", slot |-> k, a |-> id[1], m |-> id[2]],
     Append(slots, [g |-> SubGroup(slots[k].g, id),
                    d |-> [t |-> "res", g |-> slots[k].g, a |-> id[1], m |-> id[2], d |-> slots[k].d]]))
(* two representations of one size which carry the same name, restricted alike *)
Twin == \E g \in (IF RandomElement({0, 1, 2}) = 0 THEN Pick(CG) ELSE Pick(FG)) : \E id \in Pick(Ids(g)) : \E d1 \in Pick(Reps(g)) :
  \E d2 \in Pick({ x \in Reps(g) : Size(g, x) = Size(g, d1) }) :
    Do([o |-> "twin", g |-> g, a |-> id[1], m |-> id[2], ds |-> <<d1, d2>>],
       slots \o [k \in 1 .. 2 |-> [g |-> SubGroup(g, id),
                   d |-> [t |-> "res", g |-> g, a |-> id[1], m |-> id[2], d |-> IF k = 1 THEN d1 ELSE d2]]])
Look == slots # <<>> /\ \E k \in Pick(1 .. Len(slots)) : Do([o |-> "look", slot |-> k], slots)
Field == \E g \in (IF RandomElement({0, 1, 2}) = 0 THEN Pick(CG) ELSE Pick(FG)) :
  \E sp \in Pick(SpacesOf(g)) : \E id \in Pick(Ids(g)) :
  \E d1 \in Pick(Reps(g)) : \E d2 \in Pick(Reps(g)) : \E v \in Pick(0 .. 2) :
    Do([o |-> "field", sp |-> sp, a |-> id[1], m |-> id[2], ds |-> <<d1, d2>>, via |-> v], slots)
Init == slots = <<>> /\ hist = <<>>
Next == Len(hist) < MaxLen /\
  \E w \in Pick(0 .. 8) :
    CASE w = 0 -> Grow
      [] w = 1 -> MakeRep
      [] w = 2 -> IF slots = <<>> THEN MakeRep ELSE (SumRep \/ Grow)
      [] w \in {3, 4} -> IF slots = <<>> THEN MakeRep ELSE Res
      [] w = 5 -> IF slots = <<>> THEN Grow ELSE Look
      [] w = 8 -> Twin
      [] OTHER -> Field
=============================================================================
