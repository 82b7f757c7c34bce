-------------------------------- MODULE J20 ---------------------------------
(* P20: recorded constructions and runs of containers follow Cont.           *)
EXTENDS JBase, Cont
VARIABLES i, st
Ty(m, w) == Typing(m, w.sz, w.rk)
Sizes20(w, T) == [k \in 1 .. Len(T.fs) |-> w.sz[T.sp][T.fs[k]]]
Value(w, m, T, y) == JoinF(Eval(m, <<CutF(y, Sizes20(w, T))>>, w.sz, w.rk))
Sub(w, t) == \* replace references to slots by the modules in them
  LET RECURSIVE R(_)
      R(m) == CASE m.k = "slot" -> w.mem[m.s]
                [] m.k = "seq" -> [m EXCEPT !.m = [j \in 1 .. Len(@) |-> R(@[j])]]
                [] m.k \in {"multi", "merge"} -> [m EXCEPT !.ms = [j \in 1 .. Len(@) |-> [@[j] EXCEPT !.m = R(@)]]]
                [] OTHER -> m
  IN R(t)
Step(w, e) ==
  CASE e.op = "begin" -> [sz |-> e.sz, rk |-> e.rk, mem |-> [u \in 1 .. 4 |-> e.mods[u]]]
    [] e.op = "build" -> IF e.raised THEN w ELSE [w EXCEPT !.mem[e.d] = TLCEval(Sub(w, e.m))]
    [] e.op = "append" -> IF e.raised THEN w ELSE [w EXCEPT !.mem[e.s].m = Append(@, w.mem[e.t])]
    [] OTHER -> w
TypesOk(e, t) == e.ins = t.ins /\ e.out = t.out
Failing(e, w) ==
  CASE e.op = "begin" -> {}
    [] e.op = "build" ->
       UNION { IF t = Bad20 THEN Violated(<< <<"ill-typed-composition-rejected", e.raised>>, <<"arguments-unchanged", e.argsok>> >>)
               ELSE Violated(<< <<"accepted", ~e.raised>>, <<"declared-types", e.raised \/ TypesOk(e, t)>>, <<"arguments-unchanged", e.argsok>> >>)
             : t \in {TLCEval(Ty(Sub(w, e.m), w))} }
    [] e.op = "append" ->
       UNION { IF t = Bad20 THEN Violated(<< <<"ill-typed-composition-rejected", e.raised>> >>)
               ELSE Violated(<< <<"accepted", ~e.raised>>, <<"declared-types", e.raised \/ TypesOk(e, t)>> >>)
             : t \in {TLCEval(Ty([w.mem[e.s] EXCEPT !.m = Append(@, w.mem[e.t])], w))} }
    [] e.op = "run" ->
       UNION { Violated(<< <<"output-type", e.ot = t.out>>,
            <<"computes-the-composition", Len(e.y) = Len(e.x) /\ \A p \in 1 .. Len(e.x) : e.y[p] = Value(w, w.mem[e.s], t.ins[1], e.x[p])>>,
            <<"input-unchanged", e.kept>> >>) : t \in {TLCEval(Ty(w.mem[e.s], w))} }
    [] e.op = "branch" ->
       Violated(<< <<"labels-as-given", { e.keys[k] : k \in 1 .. Len(e.keys) } = LabelSet(e.lb)>>,
         <<"fields-of-each-label", \A k \in 1 .. Len(e.keys) :
              /\ e.types[k] = Branch(e.T, e.lb, e.re, w.sz, w.rk, e.keys[k]) /\ e.outs[k].T = e.types[k]
              /\ \A p \in 1 .. Len(e.x) : e.outs[k].y[p] = JoinF(Select(CutF(e.x[p], Sizes20(w, e.T)), Route(e.T, e.lb, e.re, w.sz, w.rk, e.keys[k])))>>,
         <<"predicted-shapes", e.shapes>>, <<"input-unchanged", e.kept>>, <<"arguments-unchanged", e.argsok>> >>)
    [] e.op = "merge" ->
       UNION { IF t = Bad20 THEN Violated(<< <<"ill-typed-composition-rejected", e.raised>>, <<"arguments-unchanged", e.argsok>> >>)
               ELSE Violated(<< <<"accepted", ~e.raised>>, <<"declared-types", e.raised \/ (e.out = t.out /\ e.ot = t.out)>>,
                 <<"computes-the-merge", e.raised \/ \A p \in 1 .. Len(e.y) :
                      e.y[p] = JoinF(EvalMerge(Sub(w, e.m), [l \in 1 .. Len(e.xs) |-> CutF(e.xs[l].x[p], Sizes20(w, e.xs[l].T))], w.sz, w.rk))>>,
                 <<"input-unchanged", e.raised \/ e.kept>>, <<"arguments-unchanged", e.argsok>> >>) : t \in {TLCEval(Ty(Sub(w, e.m), w))} }
    [] e.op = "wrong" ->
       Violated(<< <<"input-of-another-type-rejected", <<e.T>> = Ty(w.mem[e.s], w).ins \/ e.raised>> >>)
    [] e.op = "list" -> Violated(<< <<"list-of-modules", e.got = e.want>>, <<"only-equivariant-modules", e.rejected>> >>)
    [] e.op = "mask" ->
       \* pixels (2x-c)^2+(2y-c)^2 (doubled coordinates) inside the radius are kept; outside they shrink with the distance, symmetrically
       LET n == e.S
           q(p) == (((2 * (p[1] - 1)) - (n - 1)) * ((2 * (p[1] - 1)) - (n - 1))) + (((2 * (p[2] - 1)) - (n - 1)) * ((2 * (p[2] - 1)) - (n - 1)))
           lim == (n - 1) * (n - 1) * (100 - e.margin) * (100 - e.margin)
           P == (1 .. n) \X (1 .. n) IN
       Violated(<< <<"kept-inside-the-radius", \A p \in P : (10000 * q(p) <= lim) => e.w[p[1]][p[2]] = 1000000>>,
         <<"damped-outside", \A p \in P : (10000 * q(p) > lim) => e.w[p[1]][p[2]] < 1000000 /\ e.w[p[1]][p[2]] >= 0>>,
         <<"smooth-and-symmetric", \A p, r \in P : /\ (q(p) = q(r) => e.w[p[1]][p[2]] = e.w[r[1]][r[2]])
                                                  /\ (q(p) < q(r) => e.w[p[1]][p[2]] >= e.w[r[1]][r[2]])>>,
         <<"same-mask-for-every-channel", e.uniform>>, <<"other-sizes-rejected", e.rejected>>, <<"input-unchanged", e.kept>>, <<"output-type", e.typed>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
JInit == i = 1 /\ st = [sz |-> <<>>, rk |-> <<>>, mem |-> <<>>]
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
