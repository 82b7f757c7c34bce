-------------------------------- MODULE J11 ---------------------------------
(* P11: recorded pairs of inputs related by an isometry of the grid have     *)
(* outputs related by it.                                                    *)
EXTENDS JBase, Conv
VARIABLES i, st
Failing(e, s) ==
  CASE e.op = "equiv" ->
        IF ~Exact(e.sp, e.e) THEN {"harness-element-not-exact"} ELSE
        Violated(<<
          <<"finite-output", e.bad = 0>>,
          <<"declared-output-type", e.types>>,
          <<"harness-input-moved", MovedMap(Fibre(e.sp.g, e.din, e.e), Iso(e.sp, e.e), e.x, e.gx, 15)>>,
          <<"output-moves-with-the-input", MovedMap(Fibre(e.sp.g, e.dout, e.e), Iso(e.sp, e.e), e.y, e.gy, 40)>> >>)
    [] e.op = "shift" ->
        LET h == Len(e.y[1]) w == Len(e.y[1][1]) IN
        Violated(<< <<"finite-output", e.bad = 0>>,
          <<"output-shifts-with-the-input",
            \A o \in 1 .. Len(e.y) : \A r \in 1 .. h : \A c \in 1 .. w :
              Near(e.gy[o][((r - 1 + e.u) % h) + 1][((c - 1 + e.v) % w) + 1], e.y[o][r][c], 40)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
