------------------------------ MODULE FieldOps ------------------------------
(* What the field-wise modules compute.  A fibre is a sequence of integers   *)
(* (eighths); results are in thousandths.  Parameters are eighths as well.   *)
EXTENDS Rep, FnTab

Max2(a, b) == IF a >= b THEN a ELSE b
(* table at m/1000, linear between the grid points *)
Interp(tab, m0) ==
  LET m == IF m0 < -8000 THEN -8000 ELSE IF m0 >= 8000 THEN 7999 ELSE m0
      k == (m + 8000) \div 125
      fr == (m + 8000) % 125
  IN (tab[k + 1] * (125 - fr) + tab[k + 2] * fr) \div 125
Sig(m) == Interp(SigTab, m)          \* scale 10000
Tanh(m) == Interp(TanhTab, m)
ExpOf(x) == ExpTab[x + 65]           \* x in eighths, x <= 20

RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) ==                 \* largest r in lo .. hi with r^2 <= n
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF mid * mid <= n THEN SqrtIn(n, mid, hi) ELSE SqrtIn(n, lo, mid - 1)
ISqrt(n) == SqrtIn(n, 0, 46340)

Sq(v) == SumSeq([i \in 1 .. Len(v) |-> v[i] * v[i]])
NormOf(v) == ISqrt(Sq(v) * 15625)    \* norm of a vector of eighths, thousandths
DivR(a, b) == (2 * a + b) \div (2 * b)   \* rounded, b > 0

(* ---- scalar functions, eighths -> thousandths *)
Scalar(f, al2, x) ==
  CASE f \in {"relu", "p_relu", "c_relu"} -> Max2(0, 125 * x)
    [] f \in {"p_sigmoid", "c_sigmoid"} -> Sig(125 * x) \div 10
    [] f \in {"p_tanh", "c_tanh"} -> Tanh(125 * x) \div 10
    [] f \in {"elu", "p_elu"} -> IF x >= 0 THEN 125 * x ELSE (al2 * (ExpOf(x) - 10000)) \div 20
(* ---- one field *)
NewNorm(f, n, b) ==                  \* n, b in thousandths
  CASE f = "n_relu" -> Max2(0, n - b)
    [] f = "n_sigmoid" -> Sig(n - b) \div 10
    [] f = "squash" -> DivR(n * 1000, 1000 + n)
NormField(f, b, v) ==
  Only({ [i \in 1 .. Len(v) |-> IF n = 0 THEN 0 ELSE DivR(125 * v[i] * NewNorm(f, n, b), n)] : n \in {TLCEval(NormOf(v))} })
Sub(v, s, c) == SubSeq(v, (c - 1) * s + 1, c * s)        \* the c-th sub-field of size s
Flat(ss) == FlattenSeq(ss)
INormField(f, b, s, v) == Flat([c \in 1 .. Len(v) \div s |-> NormField(f, b, Sub(v, s, c))])
Gate(g, b) == Sig(125 * (g - b))     \* scale 10000
GateField(sg, v) == [i \in 1 .. Len(v) |-> DivR(125 * v[i] * sg, 10000)]
IGateField(gate, b, s, v) == Flat([c \in 1 .. Len(v) \div s |-> GateField(Gate(gate[c], b), Sub(v, s, c))])
ConcatField(f, v) == [i \in 1 .. 2 * Len(v) |-> Scalar(f, 2, IF i % 2 = 1 THEN v[(i + 1) \div 2] ELSE -v[i \div 2])]
MaxOf(v) == FoldLeft(LAMBDA a, b : Max2(a, b), v[1], v)
VectorFields(G, v) ==                \* the possible results (ties)
  LET m == MaxOf(v)
      a == 125 * Max2(0, m)
  IN { <<DivR(a * Cos(Angle(G, k - 1)), S), DivR(a * Sin(Angle(G, k - 1)), S)>> : k \in { j \in 1 .. Len(v) : v[j] = m } }
(* p = <<variance in sixteenths, weight, mean, bias>> *)
Sd(v16) == ISqrt(v16 * 62500)
InnerBN(p, v) == [i \in 1 .. Len(v) |-> DivR(125 * (v[i] - p[3]) * 125 * p[2], Sd(p[1])) + 125 * p[4]]
NormBN(p, v) == [i \in 1 .. Len(v) |-> DivR(125 * v[i] * 125 * p[2], Sd(p[1]))]
InvField(kind, s, v) ==
  CASE kind = "gpool" -> <<125 * MaxOf(v)>>
    [] kind = "normpool" -> <<NormOf(v)>>
    [] kind = "inormpool" -> <<MaxOf([c \in 1 .. Len(v) \div s |-> NormOf(Sub(v, s, c))])>>
(* ---- generic normalisation in the basis of the irreps: the description is
        a direct sum of irreps, possibly after a change of basis *)
IrrepList(d) == CASE d.t = "irrep" -> <<d>> [] d.t = "sum" -> d.s [] d.t = "cob" -> (IF d.d.t = "sum" THEN d.d.s ELSE <<d.d>>)
AppI(A, v) == [i \in 1 .. Len(A) |-> SumSeq([j \in 1 .. Len(v) |-> A[i][j] * v[j]])]
GBNBasis(G, ps, d, z) ==             \* ps: one record per irrep; mean and bias only for trivial ones
  LET ir == IrrepList(d)
      sz == [k \in 1 .. Len(ir) |-> IrrepDim(G, ir[k].k)]
      off == Offsets(sz)
  IN Flat([k \in 1 .. Len(ir) |-> InnerBN(ps[k], SubSeq(z, off[k] + 1, off[k] + sz[k]))])
GBNField(G, ps, d, v) ==
  IF d.t = "cob" THEN AppI(d.q, GBNBasis(G, ps, d, AppI(d.qi, v))) ELSE GBNBasis(G, ps, d, v)

(* ---- fields of a fibre *)
SizesOf(G, ds) == [f \in 1 .. Len(ds) |-> Size(G, ds[f])]
FieldsOf(sizes, x) == LET off == Offsets(sizes) IN [f \in 1 .. Len(sizes) |-> SubSeq(x, off[f] + 1, off[f] + sizes[f])]
InnerSize(G, d) == IF d.t = "ind" THEN Size(SubGroup(G, <<d.a, d.m>>), d.d) ELSE 1
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Near(a[i], b[i], tol)

(* the result of one field under parameter p (see J14); a set, because of ties *)
One(G, kind, q, p, d, v) ==
  CASE kind \in {"pointwise", "relu", "elu"} -> { [i \in 1 .. Len(v) |-> Scalar(q.f, q.al2, v[i])] }
    [] kind = "norm" -> { NormField(q.f, IF q.bias THEN ExpOf(p[1]) \div 10 ELSE 0, v) }
    [] kind = "inorm" -> { INormField(q.f, IF q.bias THEN ExpOf(p[1]) \div 10 ELSE 0, InnerSize(G, d), v) }
    [] kind = "concat" -> { ConcatField(q.f, v) }
    [] kind = "vector" -> VectorFields(G, v)
    [] kind \in {"gpool", "normpool", "inormpool"} -> { InvField(kind, InnerSize(G, d), v) }
    [] kind = "innerbn" -> { InnerBN(p, v) }
    [] kind \in {"normbn", "inormbn"} -> { NormBN(p, v) }
    [] kind = "identity" -> { [i \in 1 .. Len(v) |-> 125 * v[i]] }
OutSize(G, kind, d) ==
  CASE kind = "concat" -> 2 * Size(G, d)
    [] kind = "vector" -> 2
    [] kind \in {"gpool", "normpool", "inormpool"} -> 1
    [] OTHER -> Size(G, d)
Perms(n) == { f \in [1 .. n -> 1 .. n] : \A a, b \in 1 .. n : f[a] = f[b] => a = b }
(* each field is computed from its own channels and its own parameter *)
FieldWise(G, kind, q, ps, ds, xs, ys, tol) ==
  LET szi == SizesOf(G, ds)
      szo == [f \in 1 .. Len(ds) |-> OutSize(G, kind, ds[f])]
      n == Len(ds)
  IN \A fx \in {TLCEval([t \in 1 .. Len(xs) |-> FieldsOf(szi, xs[t])])} :
     \A fy \in {TLCEval([t \in 1 .. Len(ys) |-> FieldsOf(szo, ys[t])])} :
     \A ok \in {TLCEval([f \in 1 .. n |-> { p \in 1 .. Len(ps) :
                   \A t \in 1 .. Len(xs) : \E r \in One(G, kind, q, ps[p], ds[f], fx[t][f]) : Close(r, fy[t][f], tol) }])} :
       IF Len(ps) = 1 THEN \A f \in 1 .. n : ok[f] # {}
       ELSE \E pi \in Perms(n) : \A f \in 1 .. n : pi[f] \in ok[f]
(* gates: labels[f]; the j-th gate has bias ps[j]; gated fields and gates are
   matched one to one; without dropping, the squashed gates stay in place *)
Gated(G, induced, labels, drop, ps, ds, xs, ys, tol) ==
  LET szi == SizesOf(G, ds)
      gatesAt == SelectSeq([f \in 1 .. Len(ds) |-> f], LAMBDA f : labels[f] = "gate")
      gatedAt == SelectSeq([f \in 1 .. Len(ds) |-> f], LAMBDA f : labels[f] = "gated")
      outs == IF drop THEN gatedAt ELSE [f \in 1 .. Len(ds) |-> f]
      szo == [k \in 1 .. Len(outs) |-> szi[outs[k]]]
      PosOf(f) == CHOOSE k \in 1 .. Len(outs) : outs[k] = f
      n == Len(gatesAt)
      SigGate(j, v) == [c \in 1 .. Len(v) |-> Gate(v[c], ps[j])]
      Res(j, d, g, v) == IF induced THEN IGateField(g, ps[j], InnerSize(G, d), v) ELSE GateField(Gate(g[1], ps[j]), v)
  IN \A fx \in {TLCEval([t \in 1 .. Len(xs) |-> FieldsOf(szi, xs[t])])} :
     \A fy \in {TLCEval([t \in 1 .. Len(ys) |-> FieldsOf(szo, ys[t])])} :
     \A ok \in {TLCEval([k \in 1 .. n |-> { j \in 1 .. n : \A t \in 1 .. Len(xs) :
                   Close(Res(j, ds[gatedAt[k]], fx[t][gatesAt[j]], fx[t][gatedAt[k]]), fy[t][PosOf(gatedAt[k])], tol) }])} :
       /\ \E pi \in Perms(n) : \A k \in 1 .. n : pi[k] \in ok[k]
       /\ drop \/ \A j \in 1 .. n : \A t \in 1 .. Len(xs) :
            Close([c \in 1 .. szi[gatesAt[j]] |-> SigGate(j, fx[t][gatesAt[j]])[c] \div 10], fy[t][gatesAt[j]], tol)
=============================================================================
