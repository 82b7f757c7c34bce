-------------------------------- MODULE J08 ---------------------------------
(* P08: recorded kernel bases solve the constraint and span its solutions.   *)
EXTENDS JBase, Kernel
VARIABLES i, st
WantDim(e) ==
  IF e.T < 0 THEN DimBand(e.sp, e.din, e.dout, IF e.F < 0 THEN e.Fall ELSE e.F)
  ELSE DimPairs(e.sp, e.din, e.dout, IF e.F < 0 THEN 900 ELSE e.F, e.T)
EntryNear(x, y, tol) == Near(x, y, tol)
Failing(e, s) ==
  CASE e.op = "basis" -> Violated(<<
          <<"dimension", e.dim = e.rings * WantDim(e)>>,
          <<"empty-iff-none", (e.dim = 0) = e.empty>>,
          <<"length-and-shape", e.dim = 0 \/ (e.len = e.dim /\ e.shape = <<Size(e.sp.g, e.dout), Size(e.sp.g, e.din)>>)>>,
          <<"attributes-consistent", e.attrs>> >>)
    [] e.op = "constraint" -> Violated(<<
          <<"angle-of-the-moved-point", e.thg = MovedAngle(Iso(e.sp, e.e), e.th)>>,
          <<"finite", e.bad = 0>>,
          <<"kernel-constraint",
            \E rin \in {TLCEval(Mat(e.sp.g, e.din, e.e))}, rout \in {TLCEval(Mat(e.sp.g, e.dout, e.e))} :
              \A b \in 1 .. Len(e.K) : Steers(e.K[b], e.Kg[b], rin, rout, 30 + (MaxAbs(rin) \div S) * 20)>> >>)
    [] e.op = "origin" -> Violated(<<
          <<"finite", e.bad = 0>>,
          <<"constraint-at-the-origin",
            \A k \in 1 .. Len(e.els) :
              \E rin \in {TLCEval(Mat(e.sp.g, e.din, e.els[k]))}, rout \in {TLCEval(Mat(e.sp.g, e.dout, e.els[k]))} :
                \A b \in 1 .. Len(e.K) : Steers(e.K[b], e.K[b], rin, rout, 30 + (MaxAbs(rin) \div S) * 20)>>,
          <<"only-frequency-0-at-the-origin",
            \A b \in 1 .. Len(e.K) : e.mu[b] # 0 => MaxAbs(e.K[b]) <= 5>> >>)
    \* three equally spaced angles: f(t+2d) + f(t) = 2 cos(mu d) f(t+d) for a pure frequency mu
    [] e.op = "freq" -> Violated(<<
          <<"declared-frequency", \A b \in 1 .. Len(e.mu) :
             /\ e.F < 0 \/ Abs(e.mu[b]) <= e.F
             /\ \A r \in 1 .. Len(e.A0[b]) : \A c \in 1 .. Len(e.A0[b][1]) :
                  Near(e.A2[b][r][c] + e.A0[b][r][c], 2 * MulS(e.A1[b][r][c], Cos(e.mu[b] * e.d)), 40)>>,
          <<"radial-profile", \A b \in 1 .. Len(e.mu) :
             \A r \in 1 .. Len(e.A0[b]) : \A c \in 1 .. Len(e.A0[b][1]) :
               \* value at the other radius times the profile here = value here times the profile there
               Near(MulS(e.A0[b][r][c], e.prof2[b]), MulS(e.R0[b][r][c], e.prof1[b]), 40)>> >>)
    [] e.op = "indep" -> Violated(<<
          <<"linearly-independent", Len(e.M) = Len(e.L) /\ NearMat(MulAB(e.M, e.L), Eye(Len(e.M)), 800)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
