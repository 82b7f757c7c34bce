-------------------------------- MODULE J06 ---------------------------------
(* P06: restricted representations, field types and spaces act by a subgroup *)
(* element as the original acts by the included element.  The state holds    *)
(* the representations made so far.                                          *)
EXTENDS JBase, Space
VARIABLES i, st
Tol == 30
Slot(s, o) ==
  CASE o.o = "make" -> Append(s, [g |-> o.g, d |-> o.d])
    [] o.o = "sum" -> Append(s, [g |-> s[o.slot].g, d |-> [t |-> "sum", s |-> <<s[o.slot].d, o.d>>]])
    [] o.o = "res" -> Append(s, [g |-> SubGroup(s[o.slot].g, <<o.a, o.m>>),
            d |-> [t |-> "res", g |-> s[o.slot].g, a |-> o.a, m |-> o.m, d |-> s[o.slot].d]])
    [] o.o = "twin" -> Append(s, [g |-> SubGroup(o.g, <<o.a, o.m>>), d |-> [t |-> "res", g |-> o.g, a |-> o.a, m |-> o.m, d |-> o.d]])
    [] OTHER -> s
Target(s, o) == IF o.o = "look" THEN s[o.slot] ELSE Slot(s, o)[Len(s) + 1]
Failing(e, s) ==
  CASE e.op = "reset" -> {}
    [] e.op = "grow" -> {}
    [] e.op = "rep" ->
        LET t == Target(s, e.o) IN
        IF e.sg # t.g THEN {"group-of-the-restriction"}
        ELSE IF e.size # Size(t.g, t.d) THEN {"size-preserved"}
        ELSE Violated(<<
          <<"acts-as-the-included-element",
             \A k \in 1 .. Len(e.els) : NearMat(e.mats[k], Mat(t.g, t.d, e.els[k]), Tol)>>,
          <<"character", \A k \in 1 .. Len(e.els) : Near(e.chars[k], TraceOf(e.mats[k]), 10 + e.size)>>,
          <<"declared-decomposition",
             LET ds == [t |-> "sum", s |-> [k \in 1 .. Len(e.irreps) |-> [t |-> "irrep", j |-> e.irreps[k][1], k |-> e.irreps[k][2]]]]
             IN Size(t.g, ds) = e.size /\ \A k \in 1 .. Len(e.els) :
                  NearMat(e.mats[k], MulAB(e.q, MulAB(Mat(t.g, ds, e.els[k]), e.qi)), Tol)>> >>)
    [] e.op = "field" ->
        LET id == <<e.o.a, e.o.m>>
            sp == e.o.sp
            sub == SubSpace(sp, id)
        IN IF e.sg # sub.g THEN {"group-of-the-restriction"}
           ELSE Violated(<<
             <<"kind-of-space", e.kind = sub.s>>,
             <<"inclusion-map", \A k \in 1 .. Len(e.els) : e.up[k] = Embed(sp.g, id, e.els[k])>>,
             <<"subgroup-map", \A k \in 1 .. Len(e.els) : e.down[k] = e.els[k]>>,
             <<"fibres-act-as-the-included-element", \A k \in 1 .. Len(e.els) :
                NearMat(e.mats[k], Fibre(sp.g, e.o.ds, Embed(sp.g, id, e.els[k])), Tol)>>,
             <<"fields-move-as-the-included-element", \A k \in 1 .. Len(e.els) :
                /\ Len(e.y1[k]) = Len(e.y2[k])
                /\ \A m \in 1 .. Len(e.y1[k]) : Near(e.y1[k][m], e.y2[k][m], 15)>>,
             <<"positions-move-as-specified", \A k \in 1 .. Len(e.els) :
                Exact(sub, e.els[k]) =>
                  e.grid[k] = [q \in 1 .. 9 |-> LET p == Source(Iso(sub, e.els[k]), 3, 3, <<((q - 1) \div 3) + 1, ((q - 1) % 3) + 1>>)
                                                IN 3 * (p[1] - 1) + p[2]]>>,
             <<"tensor-untouched", e.same>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == CASE e.op = "reset" -> <<>>
                [] e.op = "rep" -> Slot(s, e.o)
                [] OTHER -> s
JInit == i = 1 /\ st = <<>>
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
