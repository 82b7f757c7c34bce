------------------------------- MODULE Kernel -------------------------------
(* Equivariant kernels on the plane: the constraint and the dimension of the *)
(* space of its solutions.                                                   *)
EXTENDS Space

(* ---- dimension from characters: the angular functions of frequency <= F   *)
(* form a representation of the isometries whose character is AngChar; the   *)
(* equivariant kernels are the invariants of Ang (x) in (x) out              *)
AngChar(F, x) == IF x[1] = 1 THEN S ELSE S + 2 * Sum([k \in 1 .. F |-> Cos(k * x[2])])
(* elements to average over: all of a finite group, a sufficiently fine      *)
(* cyclic lattice for the continuous ones                                    *)
AvgElems(g) == IF g.c THEN (IF Flip(g) THEN 0 .. 1 ELSE {0}) \X { 84 * q : q \in 0 .. 59 }
               ELSE Elems(g)
DimBand(sp, din, dout, F) ==
  LET E == AvgElems(sp.g)
      Tot == Sum([e \in E |-> MulS(MulS(Char(sp.g, din, e), Char(sp.g, dout, e)) \div 10, AngChar(F, Iso(sp, e)))])
      den == Cardinality(E) * (S \div 10)
  IN Only({ (t + den \div 2) \div den : t \in {TLCEval(Tot)} })

(* ---- dimension from the list of admissible frequencies of each pair of    *)
(* irreducible representations; T bounds the number of periods added to the  *)
(* base frequency, F the frequency                                           *)
Mus(k, N, F, T) == { m \in { k + t * N : t \in -T .. T } : -F <= m /\ m <= F }
NonNeg(M) == { m \in M : m >= 0 }
NPair(sp, i, o, F, T) ==
  LET g == sp.g
      N == IF sp.s = "flip" THEN 1 ELSE g.n
      di == IrrepDim(g, i[2])
      do == IrrepDim(g, o[2])
      n == i[2] m == o[2]
      Rng == Abs(m - n)
      M1 == NonNeg(Mus(Rng, N, F, T))
  IN CASE sp.s = "flip" ->
           LET M == NonNeg(Mus(0, 1, F, T)) IN Cardinality(IF n = m THEN M ELSE M \ {0})
       [] sp.s \in {"triv", "rot"} ->
           IF di = 2 /\ do = 2 THEN 2 * (Cardinality(Mus(m - n, N, F, T)) + Cardinality(Mus(m + n, N, F, T)))
           ELSE IF di = 1 /\ do = 1 THEN Cardinality(M1) + Cardinality(M1 \ {0})
           ELSE 2 * Cardinality(Mus(m + n, N, F, T))
       [] sp.s = "fliprot" ->
           IF di = 2 /\ do = 2 THEN Cardinality(Mus(m - n, N, F, T)) + Cardinality(Mus(m + n, N, F, T))
           ELSE IF di = 1 /\ do = 1 THEN Cardinality(IF i[1] = o[1] THEN M1 ELSE M1 \ {0})
           ELSE Cardinality(Mus(m + n, N, F, T))
IrrepMult(g, d) ==   \* multiplicities of the irreps in d (finite groups)
  Only({ [jk \in Irreps(g) |-> Multiplicity(g, ch, jk[1], jk[2])]
         : ch \in {TLCEval([q \in 1 .. Order(g) |-> Char(g, d, ElemSeq(g)[q])])} })
DimPairs(sp, din, dout, F, T) ==
  Only({ Sum([p \in Irreps(sp.g) \X Irreps(sp.g) |->
             IF mi[p[1]] = 0 \/ mo[p[2]] = 0 THEN 0 ELSE mi[p[1]] * mo[p[2]] * NPair(sp, p[1], p[2], F, T)])
         : mi \in {TLCEval(IrrepMult(sp.g, din))}, mo \in {TLCEval(IrrepMult(sp.g, dout))} })

(* image of a polar angle *)
MovedAngle(x, p) == (IF x[1] = 1 THEN x[2] - p ELSE x[2] + p) % Turn
(* K(gx) in(g) = out(g) K(x) *)
Steers(Kx, Kg, rin, rout, tol) == NearMat(MulAB2(Kg, rin), MulAB(rout, Kx), tol)

(* ---- differential operators: symbols are homogeneous polynomials          *)
(* coefficients c_0 .. c_n of x^n, x^(n-1) y, ..., y^n                       *)
RECURSIVE PowS(_, _)
PowS(x, k) == IF k = 0 THEN S ELSE Only({ MulS(y, x) : y \in {PowS(x, k - 1)} })
Powers(x, n) == TLCEval([k \in 0 .. n |-> PowS(x, k)])
EvalPoly(c, p) ==    \* p: polar angle of a unit vector
  LET n == Len(c) - 1 IN
  Only({ Sum([k \in 0 .. n |-> IF c[k + 1] = 0 THEN 0 ELSE MulS(MulS(c[k + 1], xs[n - k]), ys[k])])
         : xs \in {Powers(Cos(p), n)}, ys \in {Powers(Sin(p), n)} })
EvalPolyMat(C, p) == TLCEval([r \in 1 .. Len(C) |-> [q \in 1 .. Len(C[1]) |-> EvalPoly(C[r][q], p)]])
(* character of the isometries on homogeneous polynomials of degree d *)
DegChar(d, x) ==
  IF x[1] = 1 THEN (IF d % 2 = 0 THEN S ELSE 0)
  ELSE Sum([k \in { q \in 0 .. d : (d - q) % 2 = 0 } |-> IF k = 0 THEN S ELSE 2 * Cos(k * x[2])])
DimDeg(sp, din, dout, d) ==
  LET E == AvgElems(sp.g)
      Tot == Sum([e \in E |-> MulS(MulS(Char(sp.g, din, e), Char(sp.g, dout, e)) \div 10, DegChar(d, Iso(sp, e)))])
      den == Cardinality(E) * (S \div 10)
  IN Only({ (t + den \div 2) \div den : t \in {TLCEval(Tot)} })
RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN 1 ELSE x * IPow(x, k - 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
=============================================================================
