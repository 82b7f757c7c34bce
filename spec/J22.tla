-------------------------------- MODULE J22 ---------------------------------
(* P22: the recorded descriptions of a layer's weights are well placed, name *)
(* each weight once, and are true of the filter each weight produces.        *)
EXTENDS JBase, Layout, Trig
VARIABLES i, st
(* m: matrix of block norms (out irreps x in irreps), scaled so that the largest is 10000 *)
OnlyAt(m, o, p) ==
  \A r \in 1 .. Len(m) : \A c \in 1 .. Len(m[1]) : IF r = o + 1 /\ c = p + 1 THEN m[r][c] > 5000 ELSE m[r][c] <= 5
Counts(ns) == [f \in 1 .. Len(ns) |-> Len(ns[f])]
Failing(e, s) ==
  CASE e.op = "layer" ->
        LET ni == Counts(e.iin) no == Counts(e.iout) IN
        IF Len(e.ds) # e.n THEN {"one-description-per-weight"}
        ELSE Violated(<<
          <<"unique-names", Unique(e.ds)>>,
          <<"index-is-the-place-in-the-list", Indexed(e.ds)>>,
          <<"names-listed-in-order", e.names = [a \in 1 .. e.n |-> e.ds[a].id]>>,
          <<"lookup-by-name-and-by-index", e.lookup>>,
          <<"places", \A a \in 1 .. e.n : WellPlaced(ni, no, e.ds[a])>>,
          <<"declared-irreps-and-fields", \A a \in 1 .. e.n : LET d == e.ds[a] IN
             WellPlaced(ni, no, d) =>
               /\ e.iin[d.inf + 1][d.ini + 1] = d.ini_name /\ e.iout[d.outf + 1][d.outi + 1] = d.outi_name
               /\ e.rin[d.inf + 1] = d.inr /\ e.rout[d.outf + 1] = d.outr>>,
          <<"equal-fields-own-equally-many", \A a, b \in 1 .. Len(ni) : \A c, f \in 1 .. Len(no) :
             (e.rin[a] = e.rin[b] /\ e.rout[c] = e.rout[f]) => Owned(e.ds, a - 1, c - 1) = Owned(e.ds, b - 1, f - 1)>> >>)
    [] e.op = "unit" -> Violated(<<
          <<"finite", e.bad = 0>>,
          <<"filter-lies-between-the-declared-irreps", OnlyAt(e.m, e.d.outp, e.d.inp)>> >>)
    [] e.op = "moments" -> Violated(<<
          <<"finite", e.bad = 0>>,
          (* means of 1500 draws, in thousandths of a standard error of a weight of variance one *)
          <<"zero-mean", \A k \in 1 .. Len(e.mean) : Near(e.mean[k], 0, 7000)>>,
          <<"variances-into-an-irrep-sum-to-one", \A k \in 1 .. Len(e.tot) : Near(e.tot[k], 1000, 250)>> >>)
    [] e.op = "he" -> Violated(<<
          <<"finite", e.bad = 0>>,
          <<"remembered-variances-are-the-layers-own", Len(e.a) = Len(e.b) /\ \A k \in 1 .. Len(e.a) : Near(e.a[k], e.b[k], 2)>> >>)
    [] e.op = "delta" -> Violated(<<
          <<"finite", e.bad = 0>>,
          <<"zero-off-the-centre", e.off <= 10>>,
          <<"orthogonal-at-the-centre", \A r \in 1 .. Len(e.kk) : \A c \in 1 .. Len(e.kk) :
             Near(e.kk[r][c], IF r = c THEN 10000 ELSE 0, 60)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
