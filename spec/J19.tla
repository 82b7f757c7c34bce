-------------------------------- MODULE J19 ---------------------------------
(* P19: recorded programs over field types follow FT.                        *)
EXTENDS JBase, FT
VARIABLES i, st
SZ(w, T) == w.sizes[T.sp]
Plain(T) == [sp |-> T.sp, fs |-> T.fs]
Fills == {"new", "select", "sorted", "add", "restrict"}
Result(w, e) ==
  CASE e.op = "new" -> [sp |-> e.sp, fs |-> e.fs]
    [] e.op = "select" -> IF CanSelect(w.mem[e.s].fs, e.ix) THEN [w.mem[e.s] EXCEPT !.fs = Select(@, e.ix)] ELSE NoType
    [] e.op = "sorted" -> [w.mem[e.s] EXCEPT !.fs = Sorted(@, SZ(w, w.mem[e.s]))]
    [] e.op = "add" -> AddFT(w.mem[e.s], w.mem[e.t])
    [] e.op = "restrict" -> [sp |-> e.sub, fs |-> [k \in 1 .. Len(w.mem[e.s].fs) |-> e.map[w.mem[e.s].fs[k]]]]
Step(w, e) ==
  CASE e.op = "begin" -> [sizes |-> e.sizes, irreps |-> e.irreps, mem |-> e.mem]
    [] e.op \in Fills -> LET R == Result(w, e) IN IF e.raised \/ R = NoType THEN w ELSE [w EXCEPT !.mem[e.d] = R]
    [] OTHER -> w
Same(w, e, d) == \A u \in 1 .. Len(w.mem) : u # d => e.mem[u] = w.mem[u]
Failing(e, w) ==
  CASE e.op = "begin" -> {}
    [] e.op \in Fills ->
       LET R == Result(w, e) IN
       IF R = NoType THEN Violated(<< <<"ill-typed-or-out-of-range-rejected", e.raised>>, <<"operands-unchanged", Same(w, e, IF e.raised THEN 0 ELSE e.d)>> >>)
       ELSE Violated(<< <<"accepted", ~e.raised>>, <<"list-of-fields", e.raised \/ e.mem[e.d] = R>>,
              <<"operands-unchanged", Same(w, e, IF e.raised THEN 0 ELSE e.d)>>, <<"arguments-unchanged", e.argsok>> >>)
    [] e.op = "group" ->
       Violated(<< <<"accepted", ~e.raised>>,
         <<"labels-as-given", e.raised \/ { e.keys[k] : k \in 1 .. Len(e.keys) } = { e.lb[k] : k \in 1 .. Len(e.lb) }>>,
         <<"fields-of-each-label", e.raised \/ \A k \in 1 .. Len(e.keys) : e.outs[k] = [sp |-> w.mem[e.s].sp, fs |-> Grouped(w.mem[e.s].fs, e.lb, e.keys[k])]>>,
         <<"operands-unchanged", Same(w, e, 0)>>, <<"arguments-unchanged", e.argsok>> >>)
    [] e.op = "cmp" ->
       LET same == w.mem[e.s] = w.mem[e.t] IN
       Violated(<< <<"equal-iff-same-space-and-list", e.eq = same /\ e.eqr = same /\ e.ne = ~same>>,
         <<"equal-types-hash-equally", same => e.hasheq>>, <<"found-in-a-set-iff-equal", e.inset = same>>,
         <<"nothing-else-is-equal", ~e.alien>>, <<"operands-unchanged", Same(w, e, 0)>> >>)
    [] e.op = "look" ->
       LET T == w.mem[e.s]
           fs == T.fs IN
       Violated(<< <<"length", e.len = Len(fs)>>, <<"size", e.size = SizeOf(fs, SZ(w, T))>>,
         <<"offsets", e.starts = Starts(fs, SZ(w, T)) /\ e.ends = Ends(fs, SZ(w, T))>>,
         <<"iteration", e.iter = fs>>, <<"names", e.names = [k \in 1 .. Len(fs) |-> e.namesof[fs[k]]]>>,
         <<"irreps", e.irreps = CatAll([k \in 1 .. Len(fs) |-> w.irreps[T.sp][fs[k]]])>>,
         <<"fibre-group-of-the-space", e.group>>,
         <<"action-block-diagonal", Near(e.rho, BlockDiag([k \in 1 .. Len(fs) |-> e.rhos[fs[k]]], 0), e.tol)>>,
         <<"change-of-basis-block-diagonal", Near(e.cob, BlockDiag([k \in 1 .. Len(fs) |-> e.cobs[fs[k]]], 0), e.tol)>>,
         <<"inverse-block-diagonal", Near(e.cobi, BlockDiag([k \in 1 .. Len(fs) |-> e.cobis[fs[k]]], 0), e.tol)>>,
         <<"operands-unchanged", Same(w, e, 0)>> >>)
    [] e.op = "late" -> Violated(<< <<"later-changes-of-the-given-list-do-not-matter", Same(w, e, 0)>> >>)
    [] e.op = "reject" -> Violated(<< <<"ill-typed-or-out-of-range-rejected", e.raised>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
JInit == i = 1 /\ st = [sizes |-> <<>>, irreps |-> <<>>, mem |-> <<>>]
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
