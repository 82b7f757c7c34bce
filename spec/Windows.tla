------------------------------ MODULE Windows -------------------------------
(* Spatial pooling, masking and upsampling of a map x[c][r][col] of integers *)
(* (eighths); results in thousandths.                                        *)
EXTENDS FieldOps
(* rows (or columns) covered by window o of a pooling over n rows *)
Covered(q, n, o) == { i \in { (o - 1) * q.s - q.p + q.d * k + 1 : k \in 0 .. q.k - 1 } : i >= 1 /\ i <= n }
OutWin(q, n) ==
  LET m == n + 2 * q.p - q.d * (q.k - 1) - 1
      fl == (m \div q.s) + 1
      ce == ((m + q.s - 1) \div q.s) + 1
  IN IF ~q.ceil THEN fl ELSE IF (ce - 1) * q.s >= n + q.p THEN ce - 1 ELSE ce
MapMax(q, x, H, W) == [c \in 1 .. Len(x) |-> [r \in 1 .. H |-> [t \in 1 .. W |->
   LET R == Covered(q, Len(x[1]), r) C == Covered(q, Len(x[1][1]), t)
   IN IF R = {} \/ C = {} THEN 0
      ELSE 125 * (CHOOSE v \in { x[c][i][j] : i \in R, j \in C } : \A i \in R : \A j \in C : x[c][i][j] <= v)]]]
(* average over the window, padding counted, the part beyond the padded border not *)
PadLen(q, n, o) == LET a == (o - 1) * q.s - q.p b == a + q.k IN (IF b > n + q.p THEN n + q.p ELSE b) - a
Rd(a, b) == IF a >= 0 THEN DivR(a, b) ELSE -DivR(-a, b)
MapAvg(q, x, H, W) == [c \in 1 .. Len(x) |-> [r \in 1 .. H |-> [t \in 1 .. W |->
   LET R == Covered(q, Len(x[1]), r) C == Covered(q, Len(x[1][1]), t)
   IN Rd(125 * Sum([ij \in R \X C |-> x[c][ij[1]][ij[2]]]), PadLen(q, Len(x[1]), r) * PadLen(q, Len(x[1][1]), t))]]]
AdaptR(n, m, o) == (((o - 1) * n) \div m) + 1 .. ((o * n + m - 1) \div m)
MapAdapt(mx, m, x) == [c \in 1 .. Len(x) |-> [r \in 1 .. m |-> [t \in 1 .. m |->
   LET R == AdaptR(Len(x[1]), m, r) C == AdaptR(Len(x[1][1]), m, t)
   IN IF mx THEN 125 * (CHOOSE v \in { x[c][i][j] : i \in R, j \in C } : \A i \in R : \A j \in C : x[c][i][j] <= v)
      ELSE Rd(125 * Sum([ij \in R \X C |-> x[c][ij[1]][ij[2]]]), Cardinality(R) * Cardinality(C))]]]
(* in each window the vector of largest norm is kept, field by field *)
NormMaxOk(q, sizes, x, y) ==
  LET off == Offsets(sizes)
      V(f, i, j) == [k \in 1 .. sizes[f] |-> x[off[f] + k][i][j]]
  IN \A f \in 1 .. Len(sizes) : \A r \in 1 .. Len(y[1]) : \A t \in 1 .. Len(y[1][1]) :
       LET P == Covered(q, Len(x[1]), r) \X Covered(q, Len(x[1][1]), t)
       IN P # {} => \E p \in P : /\ \A p2 \in P : Sq(V(f, p2[1], p2[2])) <= Sq(V(f, p[1], p[2]))
                  /\ \A k \in 1 .. sizes[f] : Near(y[off[f] + k][r][t], 125 * V(f, p[1], p[2])[k], 2)
(* source coordinate of output o times den: <<cell, fraction numerator, den>> *)
Src(align, n, N, o) ==
  LET num == IF align THEN (IF N = 1 THEN 0 ELSE (o - 1) * (n - 1)) ELSE (2 * (o - 1) + 1) * n - N
      den == IF align THEN (IF N = 1 THEN 1 ELSE N - 1) ELSE 2 * N
      v == Max2(0, num)
      c0 == v \div den
  IN IF c0 >= n - 1 THEN <<n, 0, den>> ELSE <<c0 + 1, v % den, den>>
Bilinear(align, x, H, W) == [c \in 1 .. Len(x) |-> [r \in 1 .. H |-> [t \in 1 .. W |->
   LET a == Src(align, Len(x[1]), H, r) b == Src(align, Len(x[1][1]), W, t)
       Nx(u, n) == IF u < n THEN u + 1 ELSE u
       a1 == Nx(a[1], Len(x[1])) b1 == Nx(b[1], Len(x[1][1]))
       tot == x[c][a[1]][b[1]] * (a[3] - a[2]) * (b[3] - b[2]) + x[c][a1][b[1]] * a[2] * (b[3] - b[2])
            + x[c][a[1]][b1] * (a[3] - a[2]) * b[2] + x[c][a1][b1] * a[2] * b[2]
   IN Rd(125 * tot, a[3] * b[3])]]]
Nearest(x, H, W) == [c \in 1 .. Len(x) |-> [r \in 1 .. H |-> [t \in 1 .. W |->
   125 * x[c][(((r - 1) * Len(x[1])) \div H) + 1][(((t - 1) * Len(x[1][1])) \div W) + 1]]]]
CloseMap(a0, b, tol) == \A a \in {TLCEval(a0)} :
  Len(a) = Len(b) /\ \A c \in 1 .. Len(a) : Len(a[c]) = Len(b[c]) /\ \A r \in 1 .. Len(a[c]) : Close(a[c][r], b[c][r], tol)
=============================================================================
