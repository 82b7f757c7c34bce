-------------------------------- MODULE Conv --------------------------------
(* Convolution, transposed convolution and the symmetry action on sampled    *)
(* feature maps x[channel][row][column].                                     *)
EXTENDS Space

(* where the value at (possibly outside) index j of a line of n samples comes *)
(* from; 0: it is zero                                                       *)
PadIdx(mode, j, n) ==
  IF j >= 1 /\ j <= n THEN j
  ELSE CASE mode = "zeros" -> 0
         [] mode = "replicate" -> IF j < 1 THEN 1 ELSE n
         [] mode = "reflect" -> IF j < 1 THEN 2 - j ELSE 2 * n - j
         [] mode = "circular" -> ((j - 1) % n) + 1
(* geometry q: [k, s, d, ph, pw, mode, groups] *)
OutLen(n, k, s, p, d) == ((n + 2 * p - d * (k - 1) - 1) \div s) + 1
OutLenT(n, k, s, p, d, op) == (n - 1) * s - 2 * p + d * (k - 1) + 1 + op
(* the sampled grid is mapped to itself by a right-angle isometry *)
Aligned(n, k, s, p, d) == (n + 2 * p - d * (k - 1) - 1) % s = 0

(* correlation of x with the filter K[o][i][u][v] at output pixel <<r, c>>;   *)
(* grouped: output o only sees the input channels of its group               *)
ConvAt(K, x, q, o, r, c) ==
  LET ci == Len(K[1])
      co == Len(K)
      base == ((o - 1) \div (co \div q.groups)) * ci
      h == Len(x[1])
      w == Len(x[1][1])
      Row(u) == PadIdx(q.mode, (r - 1) * q.s - q.ph + (u - 1) * q.d + 1, h)
      Col(v) == PadIdx(q.mode, (c - 1) * q.s - q.pw + (v - 1) * q.d + 1, w)
  IN Sum([t \in (1 .. ci) \X (1 .. q.k) \X (1 .. q.k) |->
        LET i == Row(t[2]) j == Col(t[3])
        IN IF i = 0 \/ j = 0 THEN 0 ELSE K[o][t[1]][t[2]][t[3]] * x[base + t[1]][i][j]])
(* transposed convolution with the filter K[i][o][u][v] (as PyTorch stores it) *)
ConvTAt(K, x, q, o, r, c) ==
  LET ci == Len(K)
      cog == Len(K[1])        \* output channels per group
      g == (o - 1) \div cog
      cig == ci \div q.groups
      h == Len(x[1])
      w == Len(x[1][1])
  IN Sum([t \in (1 .. cig) \X (1 .. q.k) \X (1 .. q.k) |->
        LET a == (r - 1) + q.ph - (t[2] - 1) * q.d
            b == (c - 1) + q.pw - (t[3] - 1) * q.d
            i == (a \div q.s) + 1
            j == (b \div q.s) + 1
        IN IF a % q.s # 0 \/ b % q.s # 0 \/ i < 1 \/ i > h \/ j < 1 \/ j > w THEN 0
           ELSE K[g * cig + t[1]][((o - 1) % cog) + 1][t[2]][t[3]] * x[g * cig + t[1]][i][j]])

(* y is x moved by the element: same scale, tolerance tol *)
MovedMap(rho0, isom, x, y, tol) ==
  LET h == Len(x[1]) w == Len(x[1][1])
      h2 == IF isom[2] % 2520 = 0 THEN h ELSE w
      w2 == IF isom[2] % 2520 = 0 THEN w ELSE h
  IN \A rho \in {TLCEval(rho0)} :
     /\ Len(x) = Len(rho) /\ Len(y) = Len(rho)
     /\ \A o \in 1 .. Len(rho) : Len(y[o]) = h2 /\ \A r \in 1 .. h2 : Len(y[o][r]) = w2
     /\ \A r \in 1 .. h2 : \A c \in 1 .. w2 :
          \A p \in {TLCEval(Pixel(h, w, Image(IsoInv(isom), Coord(h2, w2, <<r, c>>))))} :
          \A o \in 1 .. Len(rho) :
             Near(y[o][r][c] * S,
                  Sum([k \in 1 .. Len(x) |-> IF rho[o][k] = 0 THEN 0 ELSE rho[o][k] * x[k][p[1]][p[2]]]),
                  tol * S)
=============================================================================
