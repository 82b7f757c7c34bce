------------------------------ MODULE MCSpace -------------------------------
(* The action of the groups on the plane is an action: walks over all pairs  *)
(* of elements of all spaces of the bound.                                   *)
EXTENDS Space
CONSTANTS Ns, Hs
VARIABLES sp, a, b
Axes == {0, 315, 630, 1260, 2520, 3780}
Spaces ==
  {[s |-> "triv", g |-> [k |-> "C", n |-> 1, c |-> FALSE], ax2 |-> 0]}
  \cup { [s |-> "flip", g |-> [k |-> "C", n |-> 2, c |-> FALSE], ax2 |-> x] : x \in Axes }
  \cup { [s |-> "rot", g |-> [k |-> "C", n |-> n, c |-> FALSE], ax2 |-> 0] : n \in Ns }
  \cup { [s |-> "fliprot", g |-> [k |-> "D", n |-> n, c |-> FALSE], ax2 |-> x] : n \in Ns, x \in Axes }
Gens(g) == {<<0, 1 % g.n>>} \cup (IF Flip(g) THEN {<<1, 0>>} ELSE {})
Init == sp \in Spaces /\ a = Ident /\ b = Ident
Next == /\ UNCHANGED sp
        /\ \E x \in Gens(sp.g) : \/ a' = Mul(sp.g, a, x) /\ UNCHANGED b
                                 \/ b' = Mul(sp.g, b, x) /\ UNCHANGED a
Action == Iso(sp, Mul(sp.g, a, b)) = IsoMul(Iso(sp, a), Iso(sp, b))
Invertible == IsoMul(Iso(sp, a), IsoInv(Iso(sp, a))) = <<0, 0>>
PixelsPermuted ==
  \A h \in Hs : \A w \in Hs :
    (IF h = w THEN Exact(sp, a) ELSE ExactRect(sp, a)) =>
      { Source(Iso(sp, a), h, w, <<i, j>>) : i \in 1 .. h, j \in 1 .. w } = (1 .. h) \X (1 .. w)
PixelAction ==
  \A h \in Hs : (Exact(sp, a) /\ Exact(sp, b)) =>
    \A i \in 1 .. h : \A j \in 1 .. h :
      Source(Iso(sp, Mul(sp.g, a, b)), h, h, <<i, j>>)
        = Source(Iso(sp, b), h, h, Source(Iso(sp, a), h, h, <<i, j>>))
Ids(g) == { id \in (-1 .. g.n - 1) \X (1 .. g.n) : ValidId(g, id) }
Restrictions ==
  \A id \in Ids(sp.g) : LET r == SubSpace(sp, id) H == SubGroup(sp.g, id) IN
     /\ r.g = H
     /\ \A h \in Elems(H) : Iso(r, h) = Iso(sp, Embed(sp.g, id, h))
=============================================================================
