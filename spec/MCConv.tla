------------------------------- MODULE MCConv -------------------------------
(* For every small geometry: a kernel satisfying the steerability constraint *)
(* commutes with every isometry of the pixel grid exactly when the sampled   *)
(* output grid is aligned.  By linearity it is enough to look at kernels     *)
(* obtained by summing one tap over its orbit and at one-pixel inputs.       *)
EXTENDS Conv
CONSTANTS SpaceIdx, Sizes, Ks, Strides, Pads, Dils, Modes
VARIABLES cfg
D(k) == [k |-> "D", n |-> k, c |-> FALSE]
C(k) == [k |-> "C", n |-> k, c |-> FALSE]
AllSpaces == << [s |-> "rot", g |-> C(4), ax2 |-> 0],
             [s |-> "fliprot", g |-> D(2), ax2 |-> 2520],
             [s |-> "flip", g |-> C(2), ax2 |-> 0],
             [s |-> "flip", g |-> C(2), ax2 |-> 1260],
             [s |-> "rot", g |-> C(2), ax2 |-> 0],
             [s |-> "fliprot", g |-> D(4), ax2 |-> 0] >>
Spaces == [i \in SpaceIdx |-> AllSpaces[i]]
RepsOf(sp) == {[t |-> "irrep", j |-> 0, k |-> 0]}
  \cup { [t |-> "irrep", j |-> x[1], k |-> x[2]] : x \in { y \in Irreps(sp.g) : y[2] = sp.g.n \div 2 } }
  \cup (IF sp.g.n <= 2 THEN {[t |-> "reg"]} ELSE {})
  \cup (IF sp.g.n = 4 THEN {[t |-> "irrep", j |-> IF Flip(sp.g) THEN 1 ELSE 0, k |-> 1]} ELSE {})
(* integer matrices *)
IMat(g, d, e) == LET m == Mat(g, d, e) IN [i \in 1 .. Len(m) |-> [j \in 1 .. Len(m) |-> (m[i][j] + S \div 2) \div S]]
(* generators of the group suffice *)
Elts(sp) == { e \in {<<0, 1>>} \cup (IF Flip(sp.g) THEN {<<1, 0>>} ELSE {}) : Exact(sp, e) }
(* sum over the orbit of the tap <<u, v>> with matrix unit <<o, i>> *)
OrbitKernel(sp, din, dout, k, tap) ==
  LET no == Size(sp.g, dout) ni == Size(sp.g, din)
      Add(e, K) ==
         Only({ [o \in 1 .. no |-> [i \in 1 .. ni |-> [u \in 1 .. k |-> [v \in 1 .. k |->
              K[o][i][u][v] + (IF <<u, v>> = p THEN A[o][tap[3]] * B[tap[4]][i] ELSE 0)]]]]
              : A \in {TLCEval(IMat(sp.g, dout, e))}, B \in {TLCEval(IMat(sp.g, din, Inv(sp.g, e)))},
                p \in {Pixel(k, k, Image(Iso(sp, e), Coord(k, k, <<tap[1], tap[2]>>)))} })
      Zero == [o \in 1 .. no |-> [i \in 1 .. ni |-> [u \in 1 .. k |-> [v \in 1 .. k |-> 0]]]]
  IN TLCEval(FoldSet(Add, Zero, Elems(sp.g)))
Delta(ni, n, ch, r, c) == [i \in 1 .. ni |-> [u \in 1 .. n |-> [v \in 1 .. n |-> IF i = ch /\ u = r /\ v = c THEN 1 ELSE 0]]]
Act(sp, d, e, x) ==
  LET n == Len(x[1]) IN
  Only({ [o \in 1 .. Len(A) |-> [r \in 1 .. n |-> [c \in 1 .. n |->
     LET p == P[r][c] IN Sum([k \in 1 .. Len(x) |-> A[o][k] * x[k][p[1]][p[2]]])]]]
     : A \in {TLCEval(IMat(sp.g, d, e))}, P \in {TLCEval([r \in 1 .. n |-> [c \in 1 .. n |-> Source(Iso(sp, e), n, n, <<r, c>>)]])} })
Conv2(K, x, q) ==
  LET m == OutLen(Len(x[1]), q.k, q.s, q.ph, q.d)
  IN TLCEval([o \in 1 .. Len(K) |-> [r \in 1 .. m |-> [c \in 1 .. m |-> ConvAt(K, x, q, o, r, c)]]])
ConvT2(K, x, q) ==
  LET m == OutLenT(Len(x[1]), q.k, q.s, q.ph, q.d, 0)
      KT == [i \in 1 .. Len(K[1]) |-> [o \in 1 .. Len(K) |-> K[o][i]]]
  IN TLCEval([o \in 1 .. Len(K) |-> [r \in 1 .. m |-> [c \in 1 .. m |-> ConvTAt(KT, x, q, o, r, c)]]])
(* one state per space, geometry, representations and tap *)
Geoms == { q \in [k : Ks, s : Strides, ph : Pads, d : Dils, mode : Modes] : TRUE }
Legal(sp, n, q) ==
  /\ OutLen(n, q.k, q.s, q.ph, q.d) >= 1 /\ n + 2 * q.ph - q.d * (q.k - 1) - 1 >= 0
  /\ (q.mode = "zeros" \/ (q.ph > 0 /\ q.ph < n))
(* first the geometry, then the tap (spreads the work over TLC's workers) *)
Init == \E si \in SpaceIdx : \E n \in Sizes : \E q \in Geoms :
          \E din \in RepsOf(Spaces[si]) : \E dout \in RepsOf(Spaces[si]) :
            Legal(Spaces[si], n, q)
            /\ cfg = <<si, n, [k |-> q.k, s |-> q.s, d |-> q.d, ph |-> q.ph, pw |-> q.ph, mode |-> q.mode, groups |-> 1], din, dout, <<>> >>
Next == cfg[6] = <<>> /\ \E tap \in (1 .. cfg[3].k) \X (1 .. cfg[3].k) \X (1 .. Size(Spaces[cfg[1]].g, cfg[5])) \X (1 .. Size(Spaces[cfg[1]].g, cfg[4])) :
            cfg' = [cfg EXCEPT ![6] = tap]
Commutes(f(_), sp, n, din, dout) ==
  \A e \in Elts(sp) : \A ch \in 1 .. Size(sp.g, din) : \A r \in 1 .. n : \A c \in 1 .. n :
     \A x \in {TLCEval(Delta(Size(sp.g, din), n, ch, r, c))} : \A gx \in {Act(sp, din, e, x)} : \A y \in {f(x)} :
       f(gx) = Act(sp, dout, e, y)
AlignedCommutes ==
  cfg[6] # <<>> =>
    LET sp == Spaces[cfg[1]] n == cfg[2] q == cfg[3] IN
    \A K \in {OrbitKernel(sp, cfg[4], cfg[5], q.k, cfg[6])} :
      LET f(x) == Conv2(K, x, q)
          ft(x) == ConvT2(K, x, q)
      IN /\ Aligned(n, q.k, q.s, q.ph, q.d) => Commutes(f, sp, n, cfg[4], cfg[5])
         /\ (q.mode = "zeros" /\ OutLenT(n, q.k, q.s, q.ph, q.d, 0) >= 1) => Commutes(ft, sp, n, cfg[4], cfg[5])
=============================================================================
