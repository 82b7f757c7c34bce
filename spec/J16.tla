-------------------------------- MODULE J16 ---------------------------------
(* P16: recorded histories of dropout layers follow Drop.                    *)
EXTENDS JBase, Drop
VARIABLES i, st
Step(w, e) ==
  CASE e.op = "new" -> [mode |-> "train", mem |-> e.mem]
    [] e.op = "mode" -> [w EXCEPT !.mode = e.m]
    [] e.op = "data" -> [w EXCEPT !.mem[e.s] = e.x]
    [] e.op = "pass" -> [w EXCEPT !.mem[e.s] = AfterPass(e.inplace, w.mode, e.x, e.y)]
    [] OTHER -> w
Failing(e, w) ==
  CASE e.op \in {"new", "mode", "data", "copy"} -> {}
    [] e.op = "pass" ->
        Violated(<< <<"finite-output", e.bad = 0>>,
          <<"output-of-the-input-type", e.typed>>,
          <<"only-documented-tensors-change", w.mem[e.s] = e.x>>,
          <<"units-dropped-whole-or-rescaled", Len(e.x) = Len(e.y) /\ PassRel(e.kind, e.sizes, e.pc, w.mode, e.x, e.y, 2)>>,
          <<"input-kept-or-updated-in-place", e.after = AfterPass(e.inplace, w.mode, e.x, e.y)>> >>)
    [] e.op = "stat" ->
        Violated(<< <<"dropped-with-the-given-probability", Frequent(e.pc, e.n, e.d)>>,
          <<"dropped-independently", \A k \in 1 .. Len(e.pairs) : Independent(e.pc, e.pairs[k][1], e.pairs[k][2])>> >>)
    [] e.op = "reject" -> Violated(<< <<"probability-outside-0-1-rejected", e.raised>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
JInit == i = 1 /\ st = [mode |-> "train", mem |-> <<>>]
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
