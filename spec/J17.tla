-------------------------------- MODULE J17 ---------------------------------
(* P17: declared types and predicted shapes are what the layers produce.     *)
EXTENDS JBase, Shape
VARIABLES i, st
Failing(e, s) ==
  CASE e.op = "shape" ->
        Violated(<< <<"declared-output-type", e.typed>>,
          <<"channels-of-the-output-type", e.out[2] = e.outsize>>,
          <<"batch-kept", e.out[1] = e.inp[1]>>,
          <<"size-formula", e.out[3] = Chain(e.hs, e.inp[3]) /\ e.out[4] = Chain(e.ws, e.inp[4])>>,
          <<"shape-prediction", e.pred = e.out>>,
          <<"input-type-unchanged", e.kept>> >>)
    [] e.op = "wrong" -> Violated(<< <<"other-types-rejected", e.raised>> >>)
    [] e.op = "same" -> Violated(<< <<"equal-type-accepted", e.ok>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
