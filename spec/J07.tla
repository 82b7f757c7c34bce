-------------------------------- MODULE J07 ---------------------------------
(* P07: recorded transformations of feature fields are the specified action. *)
EXTENDS JBase, Space
VARIABLES i, st
(* y = rho(g) x(g^-1 .) for every sample, channel and pixel *)
IsMoved(e, el, isom, y) ==
  \E rho \in {Fibre(e.sp.g, e.ds, el)} :
    /\ Len(y) = Len(e.x)
    /\ \A b \in 1 .. Len(e.x) :
      /\ Len(y[b]) = Len(rho)
      /\ \A o \in 1 .. Len(rho) : Len(y[b][o]) = e.h /\ \A r \in 1 .. e.h : Len(y[b][o][r]) = e.w
      /\ \A o \in 1 .. Len(rho) : \A r \in 1 .. e.h : \A c \in 1 .. e.w :
           Near(y[b][o][r][c], Moved(rho, isom, e.h, e.w, e.x[b], o, <<r, c>>), 20 + 10 * Len(rho))
Sized(e) == /\ \A b \in 1 .. Len(e.x) : Len(e.x[b]) = TypeSize(e.sp.g, e.ds)
Failing(e, s) ==
  CASE e.op = "exact" ->
        IF ~Sized(e) THEN {"type-size"} ELSE Violated(<<
          <<"moves-pixels-and-fibres-by-the-element", IsMoved(e, e.a, Iso(e.sp, e.a), e.ya)>>,
          <<"product-acts-as-specified",
             LET m == Mul(e.sp.g, e.b, e.a) IN IsMoved(e, m, Iso(e.sp, m), e.ym)>>,
          <<"twice-equals-product",
             LET m == Mul(e.sp.g, e.b, e.a) IN IsMoved(e, m, Iso(e.sp, m), e.yab)>>,
          <<"identity-changes-nothing", IsMoved(e, Ident, <<0, 0>>, e.yid)>>,
          <<"type-kept", e.typ>>, <<"input-untouched", e.kept>> >>)
    [] e.op = "fibre" ->
        IF ~Sized(e) THEN {"type-size"} ELSE Violated(<<
          <<"fibres-only", IsMoved(e, e.a, <<0, 0>>, e.ya)>>,
          <<"fibres-only-product", LET m == Mul(e.sp.g, e.b, e.a) IN IsMoved(e, m, <<0, 0>>, e.ym)>>,
          <<"fibres-only-twice", LET m == Mul(e.sp.g, e.b, e.a) IN IsMoved(e, m, <<0, 0>>, e.yab)>>,
          <<"type-kept", e.typ>>,
          <<"fibre-matrix", NearMat(e.rho, Fibre(e.sp.g, e.ds, e.a), 30)>> >>)
    [] e.op = "plane" ->
        \* coordinate functions: value at p of the moved coordinates is g^-1 p
        LET v == IsoInv(Iso(e.sp, e.e))
            c == Cos(v[2]) sn == Sin(v[2])
        IN Violated(<< <<"documented-isometry", \A k \in 1 .. Len(e.pts) :
             LET p == e.pts[k]
                 q == IF v[1] = 1 THEN <<c * p[1] + sn * p[2], sn * p[1] - c * p[2]>>
                      ELSE <<c * p[1] - sn * p[2], sn * p[1] + c * p[2]>>
             IN Near(e.vals[k][1], q[1], 60) /\ Near(e.vals[k][2], q[2], 60)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
