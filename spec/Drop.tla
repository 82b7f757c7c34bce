-------------------------------- MODULE Drop --------------------------------
(* Dropout layers.  A layer has a mode; tensors live in numbered slots and   *)
(* hold a sequence of fibres (one per sample and position).  Whole units are *)
(* dropped or kept: a unit is a field ("field") or one channel ("point") of  *)
(* one fibre.  pc: probability in percent.                                   *)
EXTENDS Integers, Sequences
SumTo(s, k) == LET RECURSIVE A(_)
                   A(j) == IF j = 0 THEN 0 ELSE s[j] + A(j - 1)
               IN A(k)
(* the channels of every unit *)
Units(kind, sizes) ==
  IF kind = "point" THEN [c \in 1 .. SumTo(sizes, Len(sizes)) |-> {c}]
  ELSE [f \in 1 .. Len(sizes) |-> SumTo(sizes, f - 1) + 1 .. SumTo(sizes, f)]
Ab(a) == IF a >= 0 THEN a ELSE -a
(* y is x with some units dropped and the others divided by 1 - p, up to tol in the units of x *)
Kept(pc, x, y, U, tol) == pc < 100 /\ \A c \in U : Ab(y[c] * (100 - pc) - 100 * x[c]) <= 100 * tol
Gone(pc, y, U) == pc > 0 /\ \A c \in U : y[c] = 0
DropRel(kind, sizes, pc, x, y, tol) ==
  \A u \in {Units(kind, sizes)} : \A k \in DOMAIN u : Kept(pc, x, y, u[k], tol) \/ Gone(pc, y, u[k])
(* one pass over all fibres of a tensor *)
PassRel(kind, sizes, pc, mode, xs, ys, tol) ==
  IF mode = "eval" THEN ys = xs ELSE \A t \in 1 .. Len(xs) : DropRel(kind, sizes, pc, xs[t], ys[t], tol)
(* the tensor in the slot afterwards *)
AfterPass(inplace, mode, xs, ys) == IF inplace /\ mode = "train" THEN ys ELSE xs
(* statistics: n draws, d dropped; a of n pairs agree; seven standard deviations *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Frequent(pc, n, d) == Ab(100 * d - n * pc) <= 7 * (Root(n * pc * (100 - pc), 0, 46340) + 1)
Independent(pc, n, a) == Ab(10000 * a - n * (pc * pc + (100 - pc) * (100 - pc))) <= 35000 * (Root(n, 0, 46340) + 1)
=============================================================================
