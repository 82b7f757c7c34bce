-------------------------------- MODULE J14 ---------------------------------
(* P14: field-wise modules compute the documented function of every field.   *)
EXTENDS JBase, Windows
VARIABLES i, st
GBNOk(e) ==
  LET sz == SizesOf(e.g, e.din) n == Len(e.din) IN
  \A fx \in {TLCEval([t \in 1 .. Len(e.x) |-> FieldsOf(sz, e.x[t])])} :
  \A fy \in {TLCEval([t \in 1 .. Len(e.y) |-> FieldsOf(sz, e.y[t])])} :
  \A ok \in {TLCEval([f \in 1 .. n |-> { p \in 1 .. Len(e.ps) :
       /\ Len(e.ps[p]) = Len(IrrepList(e.din[f]))
       /\ \A t \in 1 .. Len(e.x) : Close(GBNField(e.g, e.ps[p], e.din[f], fx[t][f]), fy[t][f], 15) }])} :
    \E pi \in Perms(n) : \A f \in 1 .. n : pi[f] \in ok[f]
Reshuffled(e) == LET sz == SizesOf(e.g, e.din) IN
  \A t \in 1 .. Len(e.x) : LET fx == FieldsOf(sz, e.x[t]) IN
     Close(Flat([k \in 1 .. Len(e.perm) |-> [c \in 1 .. Len(fx[e.perm[k]]) |-> 125 * fx[e.perm[k]][c]]]), e.y[t], 1)
WindowOk(e) ==
  LET H == Len(e.y[1]) W == Len(e.y[1][1]) IN
  CASE e.kind = "maxpool" -> CloseMap(MapMax(e.q, e.x, H, W), e.y, 2)
    [] e.kind = "avgpool" -> CloseMap(MapAvg(e.q, e.x, H, W), e.y, 3)
    [] e.kind = "normmax" -> NormMaxOk(e.q, SizesOf(e.g, e.din), e.x, e.y)
    [] e.kind \in {"adaptmax", "adaptavg"} -> CloseMap(MapAdapt(e.kind = "adaptmax", e.q.o, e.x), e.y, 3)
    [] e.kind = "upsample" -> CloseMap(IF e.q.mode = "nearest" THEN Nearest(e.x, H, W) ELSE Bilinear(e.q.align, e.x, H, W), e.y, 3)
    [] e.kind = "mask" ->   \* e.q.t4: four times the squared radius
        \A c \in 1 .. Len(e.x) : \A r \in 1 .. H : \A t \in 1 .. W :
          LET d4 == (2 * r - H - 1) * (2 * r - H - 1) + (2 * t - W - 1) * (2 * t - W - 1)
              v == 125 * e.x[c][r][t]
          IN IF d4 <= e.q.t4 THEN Near(v, e.y[c][r][t], 2)
             ELSE Abs(e.y[c][r][t]) <= Abs(v) + 2 /\ (e.y[c][r][t] = 0 \/ (v >= 0) = (e.y[c][r][t] >= 0))
    [] OTHER -> FALSE
Failing(e, s) ==
  CASE e.op = "field" ->
        Violated(<< <<"finite-output", e.bad = 0>>,
          <<"every-field-by-its-formula", FieldWise(e.g, e.kind, e.q, e.ps, e.din, e.x, e.y, e.tol)>> >>)
    [] e.op = "gated" ->
        Violated(<< <<"finite-output", e.bad = 0>>,
          <<"every-gated-field-times-one-gate", Gated(e.g, e.induced, e.labels, e.drop, e.ps, e.din, e.x, e.y, 6)>> >>)
    [] e.op = "gbn" -> Violated(<< <<"finite-output", e.bad = 0>>, <<"every-irrep-by-its-statistics", GBNOk(e)>> >>)
    [] e.op = "shuffle" -> Violated(<< <<"fields-in-the-requested-order", Reshuffled(e)>> >>)
    [] e.op = "window" -> Violated(<< <<"finite-output", e.bad = 0>>, <<"every-window-by-its-formula", WindowOk(e)>> >>)
    [] e.op = "indep" ->    \* only channels first..last of the output may depend on the perturbed field
        Violated(<< <<"finite-output", e.bad = 0>>,
          <<"other-fields-unaffected", \A k \in 1 .. Len(e.diff) : e.diff[k] > 2 => k >= e.first /\ k <= e.last>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
