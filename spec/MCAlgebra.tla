------------------------------ MODULE MCAlgebra ------------------------------
(* The algebra of groups, subgroups and representations as a state machine:  *)
(* walks over all pairs of elements of all groups of the bound, one          *)
(* generator at a time, and checks the laws every property relies on.        *)
EXTENDS Rep
CONSTANTS Ns
VARIABLES G, a, b
vars == <<G, a, b>>
Gs == { [k |-> k, n |-> n, c |-> FALSE] : k \in {"C", "D"}, n \in Ns }
Gens(g) == {<<0, 1 % g.n>>} \cup (IF Flip(g) THEN {<<1, 0>>} ELSE {})
Init == G \in Gs /\ a = Ident /\ b = Ident
Next == /\ UNCHANGED G
        /\ \E x \in Gens(G) : \/ a' = Mul(G, a, x) /\ UNCHANGED b
                              \/ b' = Mul(G, b, x) /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

Ids(g) == { id \in (-1 .. g.n - 1) \X (1 .. g.n) : ValidId(g, id) }
TypeOK == a \in Elems(G) /\ b \in Elems(G)
Axioms ==
  /\ Mul(G, a, b) \in Elems(G)
  /\ Mul(G, a, Inv(G, a)) = Ident /\ Mul(G, Inv(G, a), a) = Ident
  /\ Mul(G, a, Ident) = a /\ Mul(G, Ident, a) = a
  /\ \A c \in Gens(G) : Mul(G, Mul(G, a, b), c) = Mul(G, a, Mul(G, b, c))
  /\ \A p \in 0 .. G.n - 1 : ActCircle(G, Mul(G, a, b), p) = ActCircle(G, a, ActCircle(G, b, p))
Enumeration == ElemSeq(G)[IndexOf(G, a)] = a
Subgroups ==
  \A id \in Ids(G) :
    LET H == SubGroup(G, id) SE == SubElems(G, id) IN
    /\ SE = Closure(G, Generators(G, id))
    /\ Cardinality(SE) = Order(H)
    /\ Project(G, id, a) # <<>> <=> a \in SE
    /\ a \in SE => Embed(G, id, Project(G, id, a)) = a
    /\ (a \in SE /\ b \in SE) =>
         Project(G, id, Mul(G, a, b)) = Mul(H, Project(G, id, a), Project(G, id, b))
Homomorphisms ==
  \A jk \in Irreps(G) :
    NearMat(IrrepMat(G, jk[1], jk[2], Mul(G, a, b)),
            MulAB(IrrepMat(G, jk[1], jk[2], a), IrrepMat(G, jk[1], jk[2], b)), 4)
RegIsPerm ==
  RegMat(G, Mul(G, a, b)) = MulAB(RegMat(G, a), RegMat(G, b))
InducedHom ==
  (G.n <= 4) => \A id \in Ids(G) : \A jk \in Irreps(SubGroup(G, id)) :
    LET d == [t |-> "ind", a |-> id[1], m |-> id[2], d |-> [t |-> "irrep", j |-> jk[1], k |-> jk[2]]]
    IN NearMat(Mat(G, d, Mul(G, a, b)), MulAB(Mat(G, d, a), Mat(G, d, b)), 4)
Completeness ==
  (a = Ident /\ b = Ident) =>
    Sum([jk \in Irreps(G) |-> (IrrepDim(G, jk[2]) * IrrepDim(G, jk[2])) \div EndoDim(G, jk[2])]) = Order(G)
Orthogonality ==
  (a = Ident /\ b = Ident) => \A x, y \in Irreps(G) :
    Multiplicity(G, [i \in 1 .. Order(G) |-> TraceOf(IrrepMat(G, x[1], x[2], ElemSeq(G)[i]))], y[1], y[2])
      = (IF x = y THEN 1 ELSE 0)
=============================================================================
