--------------------------------- MODULE GT ---------------------------------
(* Geometric tensors as arrays of fields.  A tensor is                       *)
(*   [sp, fs, nd, prec, root, x]                                             *)
(* sp: its space, fs: the representation of every field (a token), nd: the   *)
(* number of axes, prec: 32 or 64, and x[sample][field][channel][row][column]*)
(* a cell <<address, value>> (missing axes have length one).  Views share    *)
(* addresses.  Tensors with equal root are documented to share storage;      *)
(* others may share it where their addresses coincide.                       *)
EXTENDS Integers, Sequences, FiniteSets
None == 99
RejectI == <<-1>>      (* no index list *)
Reject == [sp |-> -1]  (* no tensor *)
Map1(f(_), s) == [k \in 1 .. Len(s) |-> f(s[k])]
Pick(s, ix) == [k \in 1 .. Len(ix) |-> s[ix[k] + 1]]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Range(n) == [k \in 1 .. n |-> k - 1]
(*-------------------------- Python index arithmetic -----------------------*)
Low(v, n, d) == IF v = None THEN d ELSE IF v < 0 THEN (IF v + n < 0 THEN 0 ELSE v + n) ELSE IF v > n THEN n ELSE v
Down(v, n, d) == IF v = None THEN d ELSE IF v < 0 THEN (IF v + n < 0 THEN -1 ELSE v + n) ELSE IF v >= n THEN n - 1 ELSE v
PySlice(a, b, c0, n) ==
  LET c == IF c0 = None THEN 1 ELSE c0 IN
  IF c = 0 THEN RejectI
  ELSE IF c > 0
  THEN LET lo == Low(a, n, 0)
           hi == Low(b, n, n)
           m == IF hi <= lo THEN 0 ELSE ((hi - lo - 1) \div c) + 1
       IN [k \in 1 .. m |-> lo + ((k - 1) * c)]
  ELSE LET hi == Down(a, n, n - 1)
           lo == Down(b, n, -1)
           m == IF lo >= hi THEN 0 ELSE ((hi - lo - 1) \div (-c)) + 1
       IN [k \in 1 .. m |-> hi + ((k - 1) * c)]
(* one index along an axis of length n; axes other than the fields' take no negative steps *)
AxisIdx(it, n, isField) ==
  CASE it.k = "i" -> IF -n <= it.a /\ it.a < n THEN <<IF it.a < 0 THEN it.a + n ELSE it.a>>
                     ELSE IF it.a >= n /\ ~isField THEN <<>>      \* past the end of the batch or the grid: nothing is selected
                     ELSE RejectI
    [] it.k = "s" -> IF it.c = 0 \/ (it.c < 0 /\ ~isField) THEN RejectI ELSE PySlice(it.a, it.b, it.c, n)
    [] OTHER -> Range(n)
Full == [k |-> "s", a |-> None, b |-> None, c |-> None]
Rep(v, n) == [k \in 1 .. n |-> v]
(* the index of every axis: the ellipsis stands for as many full slices as are missing *)
Expand(items, nd) ==
  LET E == { p \in 1 .. Len(items) : items[p].k = "e" }
      miss == nd - (Len(items) - Cardinality(E)) IN
  IF miss < 0 THEN <<>>
  ELSE IF E = {} THEN items \o Rep(Full, miss)
  ELSE LET p == CHOOSE q \in E : \A r \in E : q <= r IN
       SubSeq(items, 1, p - 1) \o Rep(Full, miss) \o SubSeq(items, p + 1, Len(items))
(*-------------------------------- tensors ---------------------------------*)
Batch(T) == Len(T.x)
(* T carries its lengths so that empty batches keep their other lengths *)
Mk(sp, fs, nd, prec, root, b, h, w, x) == [sp |-> sp, fs |-> fs, nd |-> nd, prec |-> prec, root |-> root, b |-> b, h |-> h, w |-> w, x |-> x]
SliceT(T, items) ==
  LET ex == Expand(items, T.nd) IN
  IF ex = <<>> THEN Reject
  ELSE LET all == ex \o Rep(Full, 4 - T.nd)
           ib == AxisIdx(all[1], T.b, FALSE)
           if == AxisIdx(all[2], Len(T.fs), TRUE)
           ih == AxisIdx(all[3], T.h, FALSE)
           iw == AxisIdx(all[4], T.w, FALSE)
       IN IF RejectI \in {ib, if, ih, iw} \/ if = <<>> THEN Reject
          ELSE [T EXCEPT !.fs = Pick(T.fs, if), !.b = Len(ib), !.h = Len(ih), !.w = Len(iw),
                 !.x = LET y == Pick(T.x, ib) IN
                       [n \in 1 .. Len(ib) |-> [f \in 1 .. Len(if) |->
                         LET z == y[n][if[f] + 1] IN [c \in 1 .. Len(z) |-> [r \in 1 .. Len(ih) |-> Pick(z[c][ih[r] + 1], iw)]]]]]
(* documented: indexing the fields with a step other than one copies *)
Copies(items, nd) == LET ex == Expand(items, nd) IN ex # <<>> /\ ex[2].k = "s" /\ ex[2].c \notin {None, 1}
FieldsT(T, lo, hi) == [T EXCEPT !.fs = SubSeq(T.fs, lo + 1, hi), !.x = [n \in 1 .. T.b |-> SubSeq(T.x[n], lo + 1, hi)]]
SplitPoints(T, br) == IF br = <<None>> THEN [k \in 1 .. Len(T.fs) - 1 |-> k] ELSE br
SplitT(T, br) ==
  LET p == <<0>> \o SplitPoints(T, br) \o <<Len(T.fs)>> IN
  IF \E k \in 1 .. Len(p) - 1 : p[k] >= p[k + 1] THEN <<>>
  ELSE [k \in 1 .. Len(p) - 1 |-> FieldsT(T, p[k], p[k + 1])]
SameGrid(S, T) == S.b = T.b /\ S.h = T.h /\ S.w = T.w /\ S.nd = T.nd
SameType(S, T) == S.sp = T.sp /\ S.fs = T.fs
Wider(S, T) == IF S.prec > T.prec THEN S.prec ELSE T.prec
RECURSIVE SumT(_)
SumT(Ts) == IF Len(Ts) = 1 THEN Ts[1]
  ELSE LET R == SumT(Tail(Ts)) S == Ts[1] IN
       IF R = Reject \/ (R # Reject /\ (R.sp # S.sp \/ ~SameGrid(S, R))) THEN Reject
       ELSE [S EXCEPT !.fs = S.fs \o R.fs, !.prec = Wider(S, R), !.x = [n \in 1 .. S.b |-> S.x[n] \o R.x[n]]]
(* cell-wise combination of values; the addresses are those of the first *)
Zip(f(_, _), S, T) == [S EXCEPT !.x = [n \in DOMAIN S.x |-> [k \in DOMAIN S.x[n] |-> [c \in DOMAIN S.x[n][k] |->
  [h \in DOMAIN S.x[n][k][c] |-> [w \in DOMAIN S.x[n][k][c][h] |->
    <<S.x[n][k][c][h][w][1], f(S.x[n][k][c][h][w][2], T.x[n][k][c][h][w][2])>> ]]]]]]
Plus(a, b) == a + b
Minus(a, b) == a - b
AddT(S, T) == IF ~SameType(S, T) THEN Reject ELSE [Zip(Plus, S, T) EXCEPT !.prec = Wider(S, T)]
SubT(S, T) == IF ~SameType(S, T) THEN Reject ELSE [Zip(Minus, S, T) EXCEPT !.prec = Wider(S, T)]
MulT(S, v) == LET f(a, b) == a * v IN Zip(f, S, S)
RestrictT(T, sp, map) == [T EXCEPT !.sp = sp, !.fs = Map1(LAMBDA r : map[r], T.fs)]
(* a copy in fresh storage: addresses base+1 ..  in some fixed order *)
Fresh(T, base) ==
  LET N == Len(T.fs)
      K == [k \in 1 .. N |-> IF T.b = 0 THEN 0 ELSE Len(T.x[1][k])]
      Off == [k \in 1 .. N |-> LET RECURSIVE A(_) A(j) == IF j = 0 THEN 0 ELSE K[j] + A(j - 1) IN A(k - 1)]
      C == IF N = 0 THEN 0 ELSE Off[N] + K[N]
  IN [T EXCEPT !.root = base, !.x = [n \in DOMAIN T.x |-> [k \in DOMAIN T.x[n] |-> [c \in DOMAIN T.x[n][k] |->
       [h \in DOMAIN T.x[n][k][c] |-> [w \in DOMAIN T.x[n][k][c][h] |->
         <<base + ((((n - 1) * C + Off[k] + c - 1) * T.h + h - 1) * T.w) + w, T.x[n][k][c][h][w][2]>> ]]]]]]
Cells(T) == UNION { { T.x[n][k][c][h][w] : w \in 1 .. T.w } : <<n, k, c, h>> \in
  { q \in (1 .. T.b) \X (1 .. Len(T.fs)) \X (1 .. 30) \X (1 .. T.h) : q[3] <= Len(T.x[q[1]][q[2]]) } }
Addrs(T) == { c[1] : c \in Cells(T) }
(* what a tensor holds once the cells of N were written: those of its own that share an address *)
Follow(T, cells, addrs) == [T EXCEPT !.x = [n \in DOMAIN T.x |-> [k \in DOMAIN T.x[n] |-> [c \in DOMAIN T.x[n][k] |->
  [h \in DOMAIN T.x[n][k][c] |-> [w \in DOMAIN T.x[n][k][c][h] |->
    LET q == T.x[n][k][c][h][w] IN IF q[1] \in addrs THEN CHOOSE z \in cells : z[1] = q[1] ELSE q ]]]]]]
(* channels side by side: what the plain tensor underneath holds *)
Flat(T) == [n \in 1 .. T.b |-> LET y == Cat(T.x[n]) IN [c \in 1 .. Len(y) |-> [h \in 1 .. T.h |-> [w \in 1 .. T.w |-> y[c][h][w][2]]]]]
(* and back: cut a plain tensor into fields of the given sizes *)
Cut(y, sizes) == LET RECURSIVE A(_, _)
                     A(k, off) == IF k > Len(sizes) THEN <<>> ELSE << SubSeq(y, off + 1, off + sizes[k]) >> \o A(k + 1, off + sizes[k])
                 IN A(1, 0)
FromFlat(sp, fs, sizes, nd, prec, base, b, h, w, data) ==
  Fresh(Mk(sp, fs, nd, prec, base, b, h, w, [n \in 1 .. b |-> LET z == Cut(data[n], sizes) IN
    [k \in 1 .. Len(fs) |-> [c \in 1 .. sizes[k] |-> [r \in 1 .. h |-> [q \in 1 .. w |-> <<0, z[k][c][r][q]>>]]]]]), base)
=============================================================================
