-------------------------------- MODULE J15 ---------------------------------
(* P15: recorded histories of batch-normalisation layers follow BN.          *)
EXTENDS JBase, FieldOps, BN
VARIABLES i, st
(* slots: the channels (in the basis of the irreps for "gbn") which share statistics,
   the number of independent samples per pixel, whether the mean is removed *)
Slots(e) ==
  LET sz == SizesOf(e.g, e.din)
      off == Offsets(sz)
      FieldSlot(f) == [chs |-> [k \in 1 .. sz[f] |-> off[f] + k], cen |-> e.kind = "innerbn",
                       bes |-> IF e.kind = "innerbn" THEN sz[f] ELSE IF e.kind = "inormbn" THEN sz[f] \div InnerSize(e.g, e.din[f]) ELSE 1]
      IrrepSlots(f) == LET ir == IrrepList(e.din[f])
                           isz == [k \in 1 .. Len(ir) |-> IrrepDim(e.g, ir[k].k)]
                           io == Offsets(isz)
                       IN [k \in 1 .. Len(ir) |-> [chs |-> [c \in 1 .. isz[k] |-> off[f] + io[k] + c], bes |-> 1,
                                                   cen |-> ir[k].j = 0 /\ ir[k].k = 0]]
  IN IF e.kind = "gbn" THEN Flat([f \in 1 .. Len(e.din) |-> IrrepSlots(f)]) ELSE [f \in 1 .. Len(e.din) |-> FieldSlot(f)]
(* the fibre in the basis of the slots *)
ToBasis(e, x) == Flat([f \in 1 .. Len(e.din) |->
    LET v == FieldsOf(SizesOf(e.g, e.din), x)[f] IN IF e.kind = "gbn" /\ e.din[f].t = "cob" THEN AppI(e.din[f].qi, v) ELSE v])
FromBasis(e, x) == Flat([f \in 1 .. Len(e.din) |->
    LET v == FieldsOf(SizesOf(e.g, e.din), x)[f] IN IF e.kind = "gbn" /\ e.din[f].t = "cob" THEN AppI(e.din[f].q, v) ELSE v])
(* a / b in units 1/U of squared eighths (or eighths), 0 <= a *)
Quot(a, b, num, den) == (((a \div b) * num) \div den) + (((a % b) * num) \div (b * den))
SlotStat(sl, zs) ==     \* <<mean, biased variance, unbiased variance>>
  LET cnt == Len(zs) * Len(sl.chs)
      sm == SumSeq([t \in 1 .. Len(zs) |-> SumSeq([k \in 1 .. Len(sl.chs) |-> zs[t][sl.chs[k]]])])
      sq == SumSeq([t \in 1 .. Len(zs) |-> SumSeq([k \in 1 .. Len(sl.chs) |-> zs[t][sl.chs[k]] * zs[t][sl.chs[k]]])])
      N == Len(zs) * sl.bes
      A == IF sl.cen THEN cnt * sq - sm * sm ELSE cnt * sq
      bi == Quot(A, cnt * cnt, 3125, 2)
  IN << IF sl.cen THEN (IF sm >= 0 THEN 1 ELSE -1) * Quot(Abs(sm), cnt, 12500, 1) ELSE 0, bi, IF N > 1 THEN bi + bi \div (N - 1) ELSE bi >>
(* y*sd = x - mean, everything in thousandths *)
Normal(e, sls, mean, var, xs, ys) ==
  \A t \in 1 .. Len(xs) : \A z \in {TLCEval(ToBasis(e, xs[t]))} : \A yz \in {TLCEval(ToBasis(e, ys[t]))} :
    \A s \in 1 .. Len(sls) : \A sd \in {TLCEval(ISqrt((var[s] + e.eps) * 10))} :
      \A k \in 1 .. Len(sls[s].chs) :
        LET c == sls[s].chs[k]
            want == 125 * z[c] - RdDiv(mean[s], 100)
        IN IF sd < 50 THEN TRUE      \* (nearly) constant data: no usable precision
           ELSE IF Abs(yz[c]) > 100000 THEN FALSE
           ELSE Near(yz[c] * sd, 1000 * want, 6000 + 4 * Abs(yz[c]) + 4 * sd)
Means(n) == [s \in 1 .. Len(n) |-> n[s][1]]
PassOk(e, w, w2, sls, new) ==
  LET batch == w.cur.mode = "train" \/ ~e.track IN
  IF e.kind = "innerbn" THEN
       IF batch THEN Normal(e, sls, Means(new), [s \in 1 .. Len(new) |-> new[s][2]], e.x, e.y)
       ELSE Normal(e, sls, w.cur.mean, w.cur.var, e.x, e.y)
  ELSE IF e.kind = "gbn" /\ batch THEN Normal(e, sls, Means(new), [s \in 1 .. Len(new) |-> new[s][3]], e.x, e.y)
  ELSE IF e.kind = "gbn" THEN Normal(e, sls, w.cur.mean, w.cur.var, e.x, e.y)
  ELSE Normal(e, sls, [s \in 1 .. Len(sls) |-> 0], w2.cur.var, e.x, e.y)     \* the variance stored after this batch
NewStats(e) == \* evaluated once per slot
  Only({ TLCEval([s \in 1 .. Len(sls) |-> SlotStat(sls[s], zs)]) : sls \in {TLCEval(Slots(e))}, zs \in {TLCEval([t \in 1 .. Len(e.x) |-> ToBasis(e, e.x[t])])} })
Upd(new) == [s \in 1 .. Len(new) |-> <<new[s][1], new[s][3]>>]
Tracked(e, w, op, u) == IF e.track THEN Apply(w, e.mom, op, u) ELSE IF op.o = "pass" THEN w ELSE Apply(w, e.mom, op, u)
Step(w, e) ==
  CASE e.op = "new" -> [cur |-> Start(Len(Slots(e))), saved |-> <<>>]
    [] e.op = "pass" -> Tracked(e, w, [o |-> "pass"], IF w.cur.mode = "train" THEN Upd(NewStats(e)) ELSE <<>>)
    [] e.op = "do" -> Apply(w, e.mom, e.a, <<>>)
    [] OTHER -> w
Failing(e, w) ==
  CASE e.op = "new" -> {}
    [] e.op = "do" -> {}
    [] e.op = "pass" ->
        Violated(<< <<"finite-output", e.bad = 0>>,
          <<"evaluation-changes-no-state", w.cur.mode = "train" \/ e.same>>,
          <<"input-unchanged", e.intact>>,
          <<"batches-counted", \A k \in 1 .. Len(e.counts) : e.counts[k] = Step(w, e).cur.n>>,
          <<"normalised-by-the-right-statistics",
            \E new \in {TLCEval(NewStats(e))} : \E w2 \in {TLCEval(Step(w, e))} : PassOk(e, w, w2, Slots(e), new)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
JInit == i = 1 /\ st = [cur |-> Start(0), saved |-> <<>>]
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
