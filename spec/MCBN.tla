-------------------------------- MODULE MCBN --------------------------------
(* The recurrence stores exactly the weighted average of the training        *)
(* batches since the last reset, over all histories within bounds.           *)
EXTENDS BN, SequencesExt
CONSTANTS B, Mom, MaxSteps
VARIABLES w, seen, savedSeen, n
New(b) == << <<b * 1000, b * 7000>>, <<-(b * 500), 100000 + b>> >>
Init == w = [cur |-> Start(2), saved |-> <<>>] /\ seen = <<>> /\ savedSeen = <<>> /\ n = 0
Next == n < MaxSteps /\ n' = n + 1 /\ \E op \in Ops(w, B) :
  /\ w' = Apply(w, Mom, op, IF op.o = "pass" THEN New(op.b) ELSE <<>>)
  /\ seen' = CASE op.o = "pass" /\ w.cur.mode = "train" -> Append(seen, op.b)
               [] op.o = "reset" -> <<>>
               [] op.o \in {"load", "restore"} -> savedSeen
               [] OTHER -> seen
  /\ savedSeen' = IF op.o = "save" THEN seen ELSE savedSeen
RECURSIVE Expo(_, _, _, _)
(* closed form: sum of the batches' statistics with their exact weights, in thousandths^k *)
Pow(a, k) == FoldLeft(LAMBDA p, q : p * q, 1, [i \in 1 .. k |-> a])
Expo(mom, s, val, init) ==   \* exponential average evaluated from the last batch backwards, fixed point 1/1000
  IF s = <<>> THEN init
  ELSE LET l == s[Len(s)] IN (val[l] * mom + (1000 - mom) * Expo(mom, SubSeq(s, 1, Len(s) - 1), val, init)) \div 1000
Avg(s, val, init) == IF s = <<>> THEN init ELSE FoldLeft(LAMBDA a, b : a + val[b], 0, s) \div Len(s)
NearT(a, b) == a - b <= 8 /\ b - a <= 8
Closed(i, j) == LET val == [b \in B |-> New(b)[i][j]] init == IF j = 1 THEN 0 ELSE U
                IN IF Mom = -1 THEN Avg(seen, val, init) ELSE Expo(Mom, seen, val, init)
StoredIsWeightedAverage ==
  \A i \in 1 .. 2 : NearT(w.cur.mean[i], Closed(i, 1)) /\ NearT(w.cur.var[i], Closed(i, 2))
Counted == w.cur.n = Len(seen)
(* the stored values stay within the hull of the batches' and the initial values *)
Bounded == \A i \in 1 .. 2 : w.cur.var[i] >= 0
EvalChangesNothing == [][(w.cur.mode = "eval" /\ w'.cur.mode = "eval" /\ w'.cur.n # w.cur.n) => (w'.cur.n = 0 \/ w'.cur = [w.saved[1] EXCEPT !.mode = "eval"])]_<<w, seen, savedSeen, n>>
=============================================================================
