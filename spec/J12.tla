-------------------------------- MODULE J12 ---------------------------------
(* P12: after every step of a recorded history every live object computes    *)
(* the convolution with the version of the parameters the life-cycle         *)
(* specification assigns to it.  State: the life-cycle state, and for each   *)
(* version the values the specified convolution has at the recorded points.  *)
EXTENDS JBase, Conv, Life
VARIABLES i, st
Value(e, v, p) ==
  (IF e.kind = "tconv" THEN ConvTAt(e.F[v], e.x, e.q, p[1], p[2], p[3]) ELSE ConvAt(e.F[v], e.x, e.q, p[1], p[2], p[3]))
  + e.b[v][p[1]]
Shape(e) ==
  LET h == Len(e.x[1]) w == Len(e.x[1][1])
      L(n, p) == IF e.kind = "tconv" THEN OutLenT(n, e.q.k, e.q.s, p, e.q.d, 0) ELSE OutLen(n, e.q.k, e.q.s, p, e.q.d)
  IN << Len(e.b[1]), L(h, e.q.ph), L(w, e.q.pw) >>
Table(e) == [exp |-> TLCEval([v \in 1 .. 4 |-> [k \in 1 .. Len(e.pts) |-> Value(e, v, e.pts[k])]]),
             shape |-> Shape(e), tol |-> 20 + 2 * Len(e.x) * e.q.k * e.q.k, life |-> Start]
Inside(e) == \A k \in 1 .. Len(e.pts) : \A d \in 1 .. 3 : e.pts[k][d] <= Shape(e)[d]
Good(e, s, life) ==
  IF Len(e.ys) # Len(life.objs) THEN {"number-of-objects"} ELSE
  Violated(<< <<"finite", e.bad = 0>>,
     <<"output-shape", \A n \in 1 .. Len(e.ys) : e.shs[n] = s.shape>>,
     <<"training-uses-current-parameters", \A n \in 1 .. Len(e.ys) : LET o == life.objs[n] IN
        (o.kind = "layer" /\ o.mode = "train") =>
           \A k \in 1 .. Len(e.ys[n]) : Near(e.ys[n][k], s.exp[Computes(o) + 1][k], s.tol)>>,
     <<"evaluation-uses-parameters-of-the-last-switch", \A n \in 1 .. Len(e.ys) : LET o == life.objs[n] IN
        (o.kind = "layer" /\ o.mode = "eval") =>
           \A k \in 1 .. Len(e.ys[n]) : Near(e.ys[n][k], s.exp[Computes(o) + 1][k], s.tol)>>,
     <<"exported-module-computes-the-same", \A n \in 1 .. Len(e.ys) : LET o == life.objs[n] IN
        o.kind = "plain" => \A k \in 1 .. Len(e.ys[n]) : Near(e.ys[n][k], s.exp[Computes(o) + 1][k], s.tol)>> >>)
RECURSIVE Flat(_)
Flat(a) == IF a = <<>> THEN <<>> ELSE Head(a) \o Flat(Tail(a))
SumOf(f3, f1, f2) ==
  \A a \in 1 .. Len(f3) : \A b \in 1 .. Len(f3[a]) : \A u \in 1 .. Len(f3[a][b]) : \A v \in 1 .. Len(f3[a][b][u]) :
     Near(f3[a][b][u][v], f1[a][b][u][v] + f2[a][b][u][v], 3)
Failing(e, s) ==
  CASE e.op = "layer" -> Violated(<<
         <<"output-shape", Inside(e)>>,
         <<"filter-linear-in-the-weights", SumOf(e.F[4], e.F[2], e.F[3])>>,
         <<"bias-linear", \A k \in 1 .. Len(e.b[1]) : Near(e.b[4][k], e.b[2][k] + e.b[3][k], 3)>> >>)
    [] e.op = "begin" -> Good(e, s, s.life)
    [] e.op = "step" -> IF ~Enabled(s.life, e.o) THEN {"harness-step-not-enabled"} ELSE Good(e, s, Apply(s.life, e.o))
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == CASE e.op = "layer" -> IF Inside(e) THEN Table(e) ELSE 0
                [] e.op = "step" -> [s EXCEPT !.life = Apply(s.life, e.o)]
                [] OTHER -> s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
