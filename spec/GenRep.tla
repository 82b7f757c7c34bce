------------------------------- MODULE GenRep -------------------------------
(* Generates programs over the representation constructors.                  *)
EXTENDS RepProg, Json, IOUtils
CONSTANTS MaxSize, MaxLen
VARIABLES st, hist
vars == <<st, hist>>
FG == { [k |-> k, n |-> n, c |-> FALSE] : k \in {"C", "D"}, n \in {1, 2, 3, 4, 5, 6, 8} }
CG == { [k |-> k, n |-> Turn, c |-> TRUE] : k \in {"C", "D"} }
Dims(d) == Size(st.g, d)
CAxes == {0, 630, 1001, 1260}
Ids(g) ==
  IF g.c THEN { id \in ({-1} \cup CAxes) \X {-1, 1, 2, 3, 4, 6} :
                  ValidId(g, id) /\ (Flip(g) \/ id[2] # -1) /\ ~(id[1] >= 0 /\ id[2] > 1 /\ id[1] >= Turn \div id[2]) }
  ELSE { id \in (-1 .. g.n - 1) \X (1 .. g.n) : ValidId(g, id) }
Irr(g) == IF g.c THEN IrrepsUpTo(g, 3) ELSE Irreps(g)
Pushes ==
  { [o |-> "irrep", j |-> jk[1], k |-> jk[2]] : jk \in Irr(st.g) }
  \cup (IF st.g.c THEN
          IF Flip(st.g) THEN { [o |-> "ind", a |-> -1, m |-> -1, j |-> 0, k |-> k] : k \in 0 .. 3 } ELSE {}
        ELSE (IF Order(st.g) <= MaxSize THEN {[o |-> "reg"]} ELSE {})
             \cup UNION { LET H == SubGroup(st.g, id) ix == Order(st.g) \div Order(H) IN
                    (IF ix <= MaxSize THEN { [o |-> "quo", a |-> id[1], m |-> id[2]] } ELSE {})
                    \cup { [o |-> "ind", a |-> id[1], m |-> id[2], j |-> jk[1], k |-> jk[2]] :
                             jk \in { x \in Irreps(H) : ix * IrrepDim(H, x[2]) <= MaxSize } }
                  : id \in Ids(st.g) })
Ops ==
  (IF Depth(st) < 3 THEN Pushes ELSE {})
  \cup (IF Depth(st) >= 2 /\ Dims(st.s[Depth(st)]) + Dims(st.s[Depth(st) - 1]) <= MaxSize
        THEN {[o |-> "sum"]} ELSE {})
  \cup { q \in { [o |-> "sumq", n |-> n, w |-> w] : n \in 1 .. Depth(st), w \in 0 .. 2 } :
           /\ Cardinality({k \in 1 .. Len(hist) : hist[k].o \in {"cob", "sumq"}}) < 2
           /\ Size(st.g, [t |-> "sum", s |-> SubSeq(st.s, Depth(st) - q.n + 1, Depth(st))]) \in 2 .. MaxSize }
  \cup (IF Depth(st) >= 1 THEN {[o |-> "dis"]} ELSE {})
  \cup (IF Depth(st) >= 1 /\ ~st.g.c /\ Order(st.g) <= 12 THEN {[o |-> "dec"]} ELSE {})
  \cup (IF Depth(st) >= 1 /\ Dims(Top(st)) > 1 /\ Cardinality({k \in 1 .. Len(hist) : hist[k].o \in {"cob", "sumq"}}) < 2 THEN { [o |-> "cob", w |-> w] : w \in 0 .. 2 } ELSE {})
  \cup (IF Depth(st) = 1 THEN { [o |-> "res", a |-> id[1], m |-> id[2]] : id \in Ids(st.g) } ELSE {})
Kinds == { x.o : x \in Ops }
Init == \E g \in FG \cup CG : st = [g |-> g, s |-> <<>>] /\ hist = <<[o |-> "start", g |-> g]>>
(* pick the kind first so that rare kinds are not drowned by the many pushes *)
Next == /\ Len(hist) < MaxLen
        /\ \E kind \in {RandomElement(Kinds)} :
           \E op \in {RandomElement({ x \in Ops : x.o = kind })} :
             st' = Apply(st, op) /\ hist' = Append(hist, op)
        /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist'])))
=============================================================================
