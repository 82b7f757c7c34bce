-------------------------------- MODULE J13 ---------------------------------
(* P13: recorded pairs of inputs related by an element of the group have     *)
(* outputs related by it under the declared output type.                     *)
EXTENDS JBase, Conv
VARIABLES i, st
RhoOut(e) == IF "rho" \in DOMAIN e THEN e.rho ELSE Fibre(e.spo.g, e.dout, e.e)
(* the element of the input space's group that the output element stands for *)
Up(e) == IF "sub" \in DOMAIN e THEN Embed(e.sp.g, e.sub, e.e) ELSE e.e
IsoIn(e) == IF e.fibre THEN <<0, 0>> ELSE Iso(e.sp, Up(e))
IsoOut(e) == IF e.fibre THEN <<0, 0>> ELSE Iso(e.spo, e.e)
Failing(e, s) ==
  CASE e.op = "equiv" ->
        IF ~e.fibre /\ ~Exact(e.sp, Up(e)) THEN {"harness-element-not-exact"} ELSE
        Violated(<<
          <<"finite-output", e.bad = 0>>,
          <<"declared-output-type", e.types>>,
          <<"element-acts-the-same-in-both-spaces", IsoIn(e) = IsoOut(e)>>,
          <<"harness-input-moved", MovedMap(Fibre(e.sp.g, e.din, Up(e)), IsoIn(e), e.x, e.gx, 15)>>,
          <<"output-moves-with-the-input", MovedMap(RhoOut(e), IsoOut(e), e.y, e.gy, 40)>> >>)
    [] e.op = "rep" ->      \* the declared output representation is the documented one
        Violated(<< <<"declared-output-representation", NearMat(Fibre(e.spo.g, e.dout, e.e), e.rho, 30)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
