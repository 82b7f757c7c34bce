------------------------------- MODULE Group --------------------------------
(* The symmetry groups of e2cnn.  A group is a record                        *)
(*    [k |-> "C" | "D", n |-> N, c |-> BOOLEAN]                              *)
(* "C": rotations only, "D": rotations and reflections, n: number of         *)
(* rotations, c: continuous (SO(2)/O(2), sampled on the lattice n = Turn).   *)
(* An element r^a f^b is the pair <<b, a>>.  The element <<b, a>> stands for *)
(* the planar isometry "reflect b times about the reference axis, then       *)
(* rotate by a/n of a turn".                                                 *)
EXTENDS Integers, Sequences, FiniteSets, Trig

Flip(G) == G.k = "D"
Ident == <<0, 0>>
Order(G) == IF Flip(G) THEN 2 * G.n ELSE G.n

Elems(G) == (IF Flip(G) THEN {0, 1} ELSE {0}) \X (0 .. G.n - 1)
(* canonical enumeration: rotations first, then reflections *)
ElemSeq(G) == [i \in 1 .. Order(G) |-> <<(i - 1) \div G.n, (i - 1) % G.n>>]
IndexOf(G, e) == e[1] * G.n + e[2] + 1

Mul(G, a, b) == << (a[1] + b[1]) % 2,
                   (IF a[1] = 1 THEN a[2] - b[2] ELSE a[2] + b[2]) % G.n >>
Inv(G, a) == IF a[1] = 1 THEN a ELSE <<0, (-a[2]) % G.n>>

(* independent meaning: the action on the n points of a regular polygon (on  *)
(* the unit circle, in units of 1/n turn), the reference axis through 0      *)
ActCircle(G, a, p) == (IF a[1] = 1 THEN a[2] - p ELSE a[2] + p) % G.n

(* ---- subgroups.  An identifier is <<axis, M>>, axis = -1: no reflections; *)
(* M = -1: all (continuous) rotations.                                       *)
ValidId(G, id) ==
  IF ~Flip(G) THEN id[1] = -1 /\ id[2] >= 1 /\ G.n % id[2] = 0
  ELSE IF id[2] = -1 THEN G.c /\ id[1] \in -1 .. G.n - 1
  ELSE /\ id[2] >= 1 /\ G.n % id[2] = 0
       /\ id[1] \in -1 .. (G.n \div id[2]) - 1
Ratio(G, id) == IF id[2] = -1 THEN 1 ELSE G.n \div id[2]
(* the reflection alone is presented as the cyclic group of order 2 *)
FlipOnly(id) == id[1] >= 0 /\ id[2] = 1
SubGroup(G, id) ==
  IF id[2] = -1 THEN [k |-> IF id[1] = -1 THEN "C" ELSE "D", n |-> G.n, c |-> TRUE]
  ELSE IF FlipOnly(id) THEN [k |-> "C", n |-> 2, c |-> FALSE]
  ELSE [k |-> IF id[1] = -1 THEN "C" ELSE "D", n |-> id[2], c |-> FALSE]
Embed(G, id, h) ==
  IF FlipOnly(id) THEN <<h[2], (h[2] * id[1]) % G.n>>
  ELSE <<h[1], (h[2] * Ratio(G, id) + (IF h[1] = 1 THEN id[1] ELSE 0)) % G.n>>
SubElems(G, id) == { Embed(G, id, h) : h \in Elems(SubGroup(G, id)) }
(* <<>> when the element is not in the subgroup *)
Project(G, id, e) ==
  IF FlipOnly(id)
  THEN IF e = Ident THEN <<0, 0>> ELSE IF e = <<1, id[1]>> THEN <<0, 1>> ELSE <<>>
  ELSE IF e[1] = 1 /\ id[1] = -1 THEN <<>>
  ELSE LET d == (e[2] - (IF e[1] = 1 THEN id[1] ELSE 0)) % G.n
           q == Ratio(G, id)
       IN IF d % q = 0 THEN <<e[1], d \div q>> ELSE <<>>

(* the set of pairs generated by the documented generators r^(n/M), r^axis f *)
RECURSIVE Closure(_, _)
Closure(G, X) ==
  LET Y == X \cup { Mul(G, a, b) : a, b \in X }
  IN IF Y = X THEN X ELSE Closure(G, Y)
Generators(G, id) ==
  {Ident, <<0, Ratio(G, id) % G.n>>} \cup (IF id[1] >= 0 THEN {<<1, id[1]>>} ELSE {})

(* cosets g.H of the subgroup, represented by their first element in the     *)
(* canonical enumeration                                                     *)
Coset(G, id, g) == { Mul(G, g, h) : h \in SubElems(G, id) }
MinIndex(G, X) == CHOOSE m \in { IndexOf(G, x) : x \in X } : \A x \in X : m <= IndexOf(G, x)
(* (of the continuous groups only the index-2 subgroup SO(2) of O(2))        *)
CosetReps(G, id) ==
  IF G.c THEN <<Ident, <<1, 0>>>> ELSE
  SelectSeq(ElemSeq(G), LAMBDA e : IndexOf(G, e) = MinIndex(G, Coset(G, id, e)))
CosetRep(G, id, g) == IF G.c THEN <<g[1], 0>> ELSE ElemSeq(G)[MinIndex(G, Coset(G, id, g))]
PosIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
=============================================================================
