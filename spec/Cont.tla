-------------------------------- MODULE Cont --------------------------------
(* Containers.  A module is a tree of records:                               *)
(*   leaves  id, relu, scale(v), select(ix), restrict(map), two(v)           *)
(*   seq     m: modules                                                      *)
(*   multi   T: input type, lb: label of every field, re: sorting level,     *)
(*           ms: <<[m, ls]>> modules with the labels of their inputs         *)
(* Types are [sp, fs]; a fibre is a sequence of fields, a field a sequence   *)
(* of channels.  sz[sp][token] and rk[sp][token] are the size of a           *)
(* representation and the rank of its name.                                  *)
EXTENDS FT, TLC
Only20(S) == CHOOSE x \in S : TRUE
None20 == [sp |-> 0, fs |-> <<>>]
Bad20 == [ins |-> <<>>, out |-> None20]
LabelSet(lb) == { lb[k] : k \in 1 .. Len(lb) }
(* the order in which the fields of a labelled type are considered *)
Before(T, lb, re, sz, rk, p, q) ==
  LET key(a) == << lb[a], IF re >= 2 THEN sz[T.sp][T.fs[a]] ELSE 0, IF re >= 3 THEN rk[T.sp][T.fs[a]] ELSE 0, a >>
      kp == key(p) kq == key(q)
      j == CHOOSE i \in 1 .. 4 : (i = 4 \/ kp[i] # kq[i]) /\ \A h \in 1 .. i - 1 : kp[h] = kq[h]
  IN kp[j] < kq[j]
Order(T, lb, re, sz, rk) ==
  LET N == Len(T.fs) IN
  IF re = 0 THEN [k \in 1 .. N |-> k - 1]
  ELSE [k \in 1 .. N |-> (CHOOSE p \in 1 .. N : Cardinality({ q \in 1 .. N : q # p /\ Before(T, lb, re, sz, rk, q, p) }) = k - 1) - 1]
(* the fields (positions) routed to a label *)
Route(T, lb, re, sz, rk, l) == Only20({ SelectSeq(o, LAMBDA p : lb[p + 1] = l) : o \in {TLCEval(Order(T, lb, re, sz, rk))} })
Branch(T, lb, re, sz, rk, l) == [T EXCEPT !.fs = Select(T.fs, Route(T, lb, re, sz, rk, l))]
(* [ins, out] of a module; Bad20 for an ill-typed one *)
RECURSIVE Typing(_, _, _)
Typing(m, sz, rk) ==
  CASE m.k \in {"id", "relu", "scale"} -> [ins |-> <<m.T>>, out |-> m.T]
    [] m.k = "select" -> [ins |-> <<m.T>>, out |-> [m.T EXCEPT !.fs = Select(@, m.ix)]]
    [] m.k = "restrict" -> [ins |-> <<m.T>>, out |-> [sp |-> m.sub, fs |-> [k \in 1 .. Len(m.T.fs) |-> m.map[m.T.fs[k]]]]]
    [] m.k = "two" -> [ins |-> <<m.T, m.T>>, out |-> m.T]
    [] m.k = "seq" ->
         Only20({ (
         IF \E k \in 1 .. Len(t) : t[k] = Bad20 THEN Bad20
         ELSE IF \A k \in 1 .. Len(t) - 1 : t[k + 1].ins = <<t[k].out>> THEN [ins |-> t[1].ins, out |-> t[Len(t)].out] ELSE Bad20 ) : t \in {TLCEval([k \in 1 .. Len(m.m) |-> Typing(m.m[k], sz, rk)])} })
    [] m.k = "merge" ->
         Only20({ (
         IF \E k \in 1 .. Len(t) : t[k] = Bad20 THEN Bad20
         ELSE IF \A k \in 1 .. Len(t) : t[k].out.sp = t[1].out.sp
              THEN [ins |-> <<>>, out |-> [sp |-> t[1].out.sp, fs |-> CatAll([k \in 1 .. Len(t) |-> t[k].out.fs])]] ELSE Bad20 ) : t \in {TLCEval([k \in 1 .. Len(m.ms) |-> Typing(m.ms[k].m, sz, rk)])} })
    [] m.k = "multi" ->
         Only20({ (
         IF Len(m.lb) # Len(m.T.fs) \/ UNION { LabelSet(m.ms[k].ls) : k \in 1 .. Len(m.ms) } # LabelSet(m.lb) THEN Bad20
         ELSE IF \E k \in 1 .. Len(t) : t[k] = Bad20 \/ t[k].ins # [j \in 1 .. Len(m.ms[k].ls) |-> Branch(m.T, m.lb, m.re, sz, rk, m.ms[k].ls[j])] THEN Bad20
         ELSE IF \A k \in 1 .. Len(t) : t[k].out.sp = t[1].out.sp
              THEN [ins |-> <<m.T>>, out |-> [sp |-> t[1].out.sp, fs |-> CatAll([k \in 1 .. Len(t) |-> t[k].out.fs])]] ELSE Bad20 ) : t \in {TLCEval([k \in 1 .. Len(m.ms) |-> Typing(m.ms[k].m, sz, rk)])} })
(* the value of a well-typed module at the fibres xs (one per input) *)
OnChannels(f(_), x) == [k \in 1 .. Len(x) |-> [c \in 1 .. Len(x[k]) |-> f(x[k][c])]]
Pos20(a) == IF a > 0 THEN a ELSE 0
RECURSIVE Eval(_, _, _, _), EvalSeq(_, _, _, _)
EvalSeq(ms, xs, sz, rk) == IF ms = <<>> THEN xs[1] ELSE Only20({ EvalSeq(Tail(ms), ys, sz, rk) : ys \in {TLCEval(<<Eval(Head(ms), xs, sz, rk)>>)} })
Eval(m, xs, sz, rk) ==
  CASE m.k \in {"id", "restrict"} -> xs[1]
    [] m.k = "relu" -> OnChannels(Pos20, xs[1])
    [] m.k = "scale" -> LET f(a) == m.v * a IN OnChannels(f, xs[1])
    [] m.k = "select" -> Select(xs[1], m.ix)
    [] m.k = "two" -> [k \in 1 .. Len(xs[1]) |-> [c \in 1 .. Len(xs[1][k]) |-> m.v * xs[1][k][c] + xs[2][k][c]]]
    [] m.k = "seq" -> EvalSeq(m.m, xs, sz, rk)
    [] m.k = "multi" ->
         CatAll([k \in 1 .. Len(m.ms) |->
           Only20({ TLCEval(Eval(m.ms[k].m, ys, sz, rk)) : ys \in {TLCEval([j \in 1 .. Len(m.ms[k].ls) |-> Select(xs[1], Route(m.T, m.lb, m.re, sz, rk, m.ms[k].ls[j]))])} })])
(* a merging module takes labelled fibres *)
EvalMerge(m, env, sz, rk) == CatAll([k \in 1 .. Len(m.ms) |-> Eval(m.ms[k].m, [j \in 1 .. Len(m.ms[k].ls) |-> env[m.ms[k].ls[j]]], sz, rk)])
(* plain fibres cut into fields, and back *)
CutF(y, s) == [k \in 1 .. Len(s) |-> SubSeq(y, Total(SubSeq(s, 1, k - 1)) + 1, Total(SubSeq(s, 1, k)))]
JoinF(x) == CatAll(x)
=============================================================================
