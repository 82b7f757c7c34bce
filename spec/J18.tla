-------------------------------- MODULE J18 ---------------------------------
(* P18: recorded programs over geometric tensors follow GT.  Every event     *)
(* lists what all slots hold afterwards.                                     *)
EXTENDS JBase, GT
VARIABLES i, st
(* the plain view of a slot *)
Obs(T) == [sp |-> T.sp, fs |-> T.fs, nd |-> T.nd, prec |-> T.prec, lens |-> <<T.b, T.h, T.w>>, data |-> Flat(T)]
Load(w, o, base) == FromFlat(o.sp, o.fs, [k \in 1 .. Len(o.fs) |-> w.sizes[o.sp][o.fs[k]]], o.nd, o.prec, base, o.lens[1], o.lens[2], o.lens[3], o.data)
(* result of an operation that fills slot e.d: <<tensor or Reject, in fresh storage?, shares storage as documented?>> *)
Result(w, e) ==
  CASE e.op = "slice" -> << SliceT(w.mem[e.s], e.it), Copies(e.it, w.mem[e.s].nd), TRUE >>
    [] e.op = "dsum" -> << SumT([k \in 1 .. Len(e.ss) |-> w.mem[e.ss[k]]]), TRUE, FALSE >>
    [] e.op = "add" -> << AddT(w.mem[e.s], w.mem[e.t]), TRUE, FALSE >>
    [] e.op = "sub" -> << SubT(w.mem[e.s], w.mem[e.t]), TRUE, FALSE >>
    [] e.op = "mul" -> << MulT(w.mem[e.s], e.v), TRUE, FALSE >>
    [] e.op = "restrict" -> << RestrictT(w.mem[e.s], e.sub, e.map), FALSE, TRUE >>
    [] e.op = "ident" -> << w.mem[e.s], TRUE, FALSE >>   \* transformed by the identity: the same entries, anew
    [] e.op = "to" -> << [w.mem[e.s] EXCEPT !.prec = e.prec], w.mem[e.s].prec # e.prec, FALSE >>
InPlace(w, e) ==
  CASE e.op = "imul" -> MulT(w.mem[e.s], e.v)
    [] e.op = "iadd" -> [AddT(w.mem[e.s], w.mem[e.t]) EXCEPT !.prec = w.mem[e.s].prec]
    [] e.op = "isub" -> [SubT(w.mem[e.s], w.mem[e.t]) EXCEPT !.prec = w.mem[e.s].prec]
IllTyped(w, e) == e.op \in {"iadd", "isub"} /\ ~SameType(w.mem[e.s], w.mem[e.t])
(* the state after e; where the specification leaves a choice, the recorded value *)
Adopt(T, o) == [T EXCEPT !.x = [n \in DOMAIN T.x |-> LET z == Cut(o.data[n], [k \in 1 .. Len(T.fs) |-> Len(T.x[n][k])]) IN
  [k \in DOMAIN T.x[n] |-> [c \in DOMAIN T.x[n][k] |-> [h \in DOMAIN T.x[n][k][c] |-> [q \in DOMAIN T.x[n][k][c][h] |->
     <<T.x[n][k][c][h][q][1], z[k][c][h][q]>> ]]]]]]
Wrote(w, e, T) == LET cells == Cells(T) ad == Addrs(T) IN
  [u \in 1 .. Len(w.mem) |-> IF u = e.s THEN <<T, T>>
     ELSE LET F == Follow(w.mem[u], cells, ad) IN IF w.mem[u].root = T.root THEN <<F, F>> ELSE <<w.mem[u], F>>]
Between(o, a, b) == \* every value is that of a or of b
  \A n \in 1 .. Len(a.data) : \A c \in 1 .. Len(a.data[n]) : \A h \in 1 .. Len(a.data[n][c]) : \A q \in 1 .. Len(a.data[n][c][h]) :
    o.data[n][c][h][q] \in {a.data[n][c][h][q], b.data[n][c][h][q]}
Like(o, a) == [o EXCEPT !.data = <<>>] = [a EXCEPT !.data = <<>>]
Fills == {"slice", "dsum", "add", "sub", "mul", "restrict", "to", "ident"}
Step(w, e) ==
  CASE e.op = "begin" -> [sizes |-> e.sizes, next |-> 10000, mem |-> [u \in 1 .. Len(e.mem) |-> Load([sizes |-> e.sizes], e.mem[u], u * 1000)]]
    [] e.op = "new" -> [w EXCEPT !.next = @ + 1000, !.mem[e.d] = Load(w, e.mem[e.d], w.next)]
    [] e.op \in Fills -> IF e.raised THEN w ELSE
         LET R == Result(w, e) IN IF R[1] = Reject THEN w
         ELSE [w EXCEPT !.next = @ + 1000, !.mem[e.d] = IF R[2] THEN Fresh(R[1], w.next) ELSE IF R[3] THEN R[1] ELSE [R[1] EXCEPT !.root = w.next]]
    [] e.op = "split" -> IF e.raised THEN w ELSE
         LET R == SplitT(w.mem[e.s], e.br) IN IF R = <<>> THEN w
         ELSE [w EXCEPT !.next = @ + 1000, !.mem[e.d] = [R[e.p] EXCEPT !.root = w.next]]
    [] e.op \in {"iadd", "isub", "imul"} -> IF e.raised \/ IllTyped(w, e) THEN w ELSE
         LET W == Wrote(w, e, InPlace(w, e)) IN
         [w EXCEPT !.mem = [u \in 1 .. Len(w.mem) |-> IF W[u][1] = W[u][2] THEN W[u][1] ELSE Adopt(W[u][1], e.mem[u])]]
    [] OTHER -> w
Others(w, e, d) == \A u \in 1 .. Len(w.mem) : u # d => e.mem[u] = Obs(w.mem[u])
Failing(e, w) ==
  CASE e.op = "begin" -> Violated(<< <<"as-built", \A u \in 1 .. Len(e.mem) : Obs(Load([sizes |-> e.sizes], e.mem[u], u * 1000)) = e.mem[u]>> >>)
    [] e.op = "new" -> Violated(<< <<"as-built", Obs(Load(w, e.mem[e.d], w.next)) = e.mem[e.d]>>, <<"operands-unchanged", Others(w, e, e.d)>> >>)
    [] e.op \in Fills ->
       LET R == Result(w, e) IN
       IF R[1] = Reject
       THEN Violated(<< <<"ill-typed-or-out-of-range-rejected", e.raised>>, <<"operands-unchanged", Others(w, e, IF e.raised THEN 0 ELSE e.d)>> >>)
       ELSE Violated(<< <<"accepted", ~e.raised>>,
              <<"result-fields-and-entries", e.raised \/ e.mem[e.d] = Obs(R[1])>>,
              <<"operands-unchanged", Others(w, e, IF e.raised THEN 0 ELSE e.d)>>,
              <<"arguments-unchanged", e.argsok>> >>)
    [] e.op = "split" ->
       LET R == SplitT(w.mem[e.s], e.br) IN
       IF R = <<>> THEN Violated(<< <<"ill-typed-or-out-of-range-rejected", e.raised>>, <<"operands-unchanged", Others(w, e, IF e.raised THEN 0 ELSE e.d)>>,
                                    <<"arguments-unchanged", e.argsok>> >>)
       ELSE Violated(<< <<"accepted", ~e.raised>>,
              <<"pieces", e.raised \/ (Len(e.outs) = Len(R) /\ \A k \in 1 .. Len(R) : e.outs[k] = Obs(R[k]))>>,
              <<"operands-unchanged", Others(w, e, IF e.raised THEN 0 ELSE e.d)>>,
              <<"arguments-unchanged", e.argsok>> >>)
    [] e.op \in {"iadd", "isub", "imul"} ->
       IF IllTyped(w, e) THEN Violated(<< <<"ill-typed-or-out-of-range-rejected", e.raised>>, <<"operands-unchanged", Others(w, e, 0)>> >>)
       ELSE LET W == Wrote(w, e, InPlace(w, e))
                ok(u) == Like(e.mem[u], Obs(W[u][1])) /\ Between(e.mem[u], Obs(W[u][1]), Obs(W[u][2])) IN
       Violated(<< <<"accepted", ~e.raised>>, <<"same-object", e.same>>,
              <<"target-updated", e.raised \/ ok(e.s)>>,
              <<"only-the-target-changes", \A u \in 1 .. Len(w.mem) : u = e.s \/ ok(u)>> >>)
    [] e.op = "reject" -> Violated(<< <<"ill-typed-or-out-of-range-rejected", e.raised>>, <<"operands-unchanged", Others(w, e, 0)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
JInit == i = 1 /\ st = [sizes |-> <<>>, next |-> 0, mem |-> <<>>]
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
