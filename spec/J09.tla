-------------------------------- MODULE J09 ---------------------------------
(* P09: recorded differential-operator bases and stencils.                   *)
EXTENDS JBase, Kernel
VARIABLES i, st
WantDim(e) ==
  IF e.T < 0 THEN DimBand(e.sp, e.din, e.dout, IF e.F < 0 THEN e.Fall ELSE e.F)
  ELSE DimPairs(e.sp, e.din, e.dout, IF e.F < 0 THEN 900 ELSE e.F, e.T)
RECURSIVE DegSum(_, _)
(* operators of order exactly d: harmonic part of frequency d - 2l times the l-th power of the Laplacian *)
Band(e, f) == IF f < 0 THEN 0 ELSE DimBand(e.sp, e.din, e.dout, f)
OfOrder(e, d) ==
  IF e.power < 0 THEN DimDeg(e.sp, e.din, e.dout, d)
  ELSE Sum([x \in 1 .. 1 + (IF e.power < d \div 2 THEN e.power ELSE d \div 2) |-> Band(e, d - 2 * (x - 1)) - Band(e, d - 2 * (x - 1) - 1)])
Chosen(e, d) == CASE e.filt \in {"none", "any"} -> TRUE [] e.filt = "not1" -> d # 1 [] e.filt = "even" -> d % 2 = 0
DegSum(e, d) == IF d < 0 THEN 0 ELSE (IF Chosen(e, d) THEN OfOrder(e, d) ELSE 0) + DegSum(e, d - 1)
MaxCoef(C) == FoldLeft(LAMBDA m, r : FoldLeft(LAMBDA m2, q : FoldLeft(LAMBDA x, y : IF Abs(y) > x THEN Abs(y) ELSE x, m2, q), m, r), 0, C)
(* a stencil w on the points p (doubled coordinates) applied to x^a y^b; coefficients and weights scaled by e.sc *)
Applied(e, a, b) == Sum([q \in 1 .. Len(e.p) |-> e.w[q] * IPow(e.p[q][1], a) * IPow(e.p[q][2], b)])
ApplyTol(e, a, b) == 5 + Sum([q \in 1 .. Len(e.p) |-> Abs(IPow(e.p[q][1], a) * IPow(e.p[q][2], b))])
(* the same on the plane wave power (v.p)^d, v at polar angle ph *)
Dot(e, q, ph) == (e.p[q][1] * Cos(ph) + e.p[q][2] * Sin(ph)) \div 2
AppliedDir(e, d, ph) == Sum([q \in 1 .. Len(e.p) |-> (e.w[q] * ((PowS(Dot(e, q, ph), d) + 50) \div 100)) \div 100])
DirTol(e, d) == 20 + Sum([q \in 1 .. Len(e.p) |-> 1 + Abs(e.w[q]) \div 50]) + 4 * Len(e.p) * IPow(2, d)
Failing(e, s) ==
  CASE e.op = "basis" -> Violated(<<
          <<"dimension", e.dim = (e.power + 1) * WantDim(e)>>,
          <<"empty-iff-none", (e.dim = 0) = e.empty>>,
          <<"length-and-shape", e.dim = 0 \/ (e.len = e.dim /\ e.shape = <<Size(e.sp.g, e.dout), Size(e.sp.g, e.din)>>)>>,
          <<"attributes-consistent", e.attrs>> >>)
    [] e.op = "sym" -> Violated(<<
          <<"angle-of-the-moved-point", e.thg = MovedAngle(Iso(e.sp, e.e), e.th)>>,
          <<"finite", e.bad = 0>>,
          <<"order", \A b \in 1 .. Len(e.C) :
             /\ \A r \in 1 .. Len(e.C[b]) : \A c \in 1 .. Len(e.C[b][1]) : Len(e.C[b][r][c]) = e.order[b] + 1
             /\ e.order[b] = Abs(e.mu[b]) + 2 * e.lap[b]
             /\ e.F < 0 \/ Abs(e.mu[b]) <= e.F
             /\ 0 <= e.lap[b] /\ e.lap[b] <= e.power>>,
          <<"operator-constraint",
            \E rin \in {TLCEval(Mat(e.sp.g, e.din, e.e))}, rout \in {TLCEval(Mat(e.sp.g, e.dout, e.e))} :
              \A b \in 1 .. Len(e.C) :
                Steers(EvalPolyMat(e.C[b], e.th), EvalPolyMat(e.C[b], e.thg), rin, rout,
                       (15 + MaxCoef(e.C[b]) \div 100) * (1 + MaxAbs(rin) \div S))>>,
          \* on the circle the symbol is a pure frequency: P(t+2d) + P(t) = 2 cos(mu d) P(t+d)
          <<"declared-frequency",
             \A b \in 1 .. Len(e.C) :
               \E A0 \in {EvalPolyMat(e.C[b], e.th)}, A1 \in {EvalPolyMat(e.C[b], e.th + e.d)}, A2 \in {EvalPolyMat(e.C[b], e.th + 2 * e.d)} :
                 \A r \in 1 .. Len(A0) : \A c \in 1 .. Len(A0[1]) :
                  Near(A2[r][c] + A0[r][c], 2 * MulS(A1[r][c], Cos(e.mu[b] * e.d)), 15 + MaxCoef(e.C[b]) \div 50)>> >>)
    [] e.op = "indep" -> Violated(<<
          <<"linearly-independent", Len(e.M) = Len(e.L) /\ NearMat(MulAB(e.M, e.L), Eye(Len(e.M)), 800)>> >>)
    [] e.op = "layer" -> Violated(<< <<"layer-dimension", e.dim = DegSum(e, e.maxorder)>> >>)
    [] e.op = "stencil" ->
        LET n == Len(e.c) - 1 IN Violated(<<
          <<"finite", e.bad = 0>>,
          <<"exact-on-monomials",
            e.ang # 0 \/ \A a \in 0 .. e.s - 1 : \A b \in 0 .. e.s - 1 : a + b <= 5 =>
              Near(Applied(e, a, b),
                   IF a + b = n THEN e.c[b + 1] * Fact(a) * Fact(b) * IPow(2, n) ELSE 0,
                   ApplyTol(e, a, b) + 2 * Fact(a) * Fact(b) * IPow(2, n))>>,
          \* rotated operator: P'(v) = P(v rotated back)
          <<"rotated-by-the-angle-offset",
            e.ang = 0 \/ \A d \in 0 .. e.s - 1 : \A ph \in {0, 700, 2000} : d <= 3 =>
              Near(AppliedDir(e, d, ph), IF d = n THEN Fact(n) * EvalPoly(e.c, ph - e.ang) ELSE 0, DirTol(e, d))>> >>)
    [] e.op = "cache" -> Violated(<< <<"stencils-survive-the-cache", e.same>>, <<"cache-restored", e.kept>>, <<"no-error", e.err = "">> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
