------------------------------- MODULE Space --------------------------------
(* Symmetry spaces over the plane and feature fields on a pixel grid.        *)
(* A space is [s |-> "triv"|"flip"|"rot"|"fliprot", g |-> group, ax2 |-> A]   *)
(* where A is twice the angle of the reflection axis (in 1/Turn of a turn).  *)
EXTENDS Rep

(* the planar isometry of a group element: <<f, u>> maps polar angle p to    *)
(* u + p (f = 0) or u - p (f = 1)                                            *)
Iso(sp, e) ==
  CASE sp.s = "triv" -> <<0, 0>>
    [] sp.s = "flip" -> IF e[2] = 1 THEN <<1, sp.ax2 % Turn>> ELSE <<0, 0>>
    [] sp.s = "rot" -> <<0, Angle(sp.g, e[2]) % Turn>>
    [] sp.s = "fliprot" -> <<e[1], (Angle(sp.g, e[2]) + e[1] * sp.ax2) % Turn>>
IsoMul(x, y) == <<(x[1] + y[1]) % 2, (IF x[1] = 1 THEN x[2] - y[2] ELSE x[2] + y[2]) % Turn>>
IsoInv(x) == IF x[1] = 1 THEN x ELSE <<0, (-x[2]) % Turn>>
(* maps the pixel lattice of a square grid to itself *)
Exact(sp, e) == Iso(sp, e)[2] % 1260 = 0
ExactRect(sp, e) == Iso(sp, e)[2] % 2520 = 0

(* image of a point with integer coordinates under an exact isometry *)
QCos(u) == CASE u % Turn = 0 -> 1 [] u % Turn = 2520 -> -1 [] OTHER -> 0
QSin(u) == CASE u % Turn = 1260 -> 1 [] u % Turn = 3780 -> -1 [] OTHER -> 0
Image(x, p) ==
  LET c == QCos(x[2]) s == QSin(x[2]) IN
  IF x[1] = 1 THEN <<c * p[1] + s * p[2], s * p[1] - c * p[2]>>
  ELSE <<c * p[1] - s * p[2], s * p[1] + c * p[2]>>
(* pixel <<row, column>> (1-based) of an h x w grid <-> doubled centred coordinates *)
Coord(h, w, q) == <<2 * (q[2] - 1) - (w - 1), (h - 1) - 2 * (q[1] - 1)>>
Pixel(h, w, p) == <<((h - 1) - p[2]) \div 2 + 1, (p[1] + (w - 1)) \div 2 + 1>>
Source(x, h, w, q) == Pixel(h, w, Image(IsoInv(x), Coord(h, w, q)))

(* the restriction of a space to a subgroup of its group *)
SubSpace(sp, id) ==
  LET H == SubGroup(sp.g, id) IN
  CASE sp.s = "triv" -> sp
    [] sp.s = "flip" -> IF id[2] = 1 THEN [s |-> "triv", g |-> H, ax2 |-> 0] ELSE sp
    [] sp.s = "rot" -> IF id[2] = 1 THEN [s |-> "triv", g |-> H, ax2 |-> 0] ELSE [s |-> "rot", g |-> H, ax2 |-> 0]
    [] sp.s = "fliprot" ->
       IF id[1] = -1 THEN [s |-> IF id[2] = 1 THEN "triv" ELSE "rot", g |-> H, ax2 |-> 0]
       ELSE [s |-> IF id[2] = 1 THEN "flip" ELSE "fliprot", g |-> H, ax2 |-> (sp.ax2 + Angle(sp.g, id[1])) % Turn]

(* fibre matrix of a list of representation descriptions *)
Fibre(g, ds, e) == BlockDiag([k \in 1 .. Len(ds) |-> Mat(g, ds[k], e)])
TypeSize(g, ds) == SumSeq([k \in 1 .. Len(ds) |-> Size(g, ds[k])])

(* the transformed field at pixel q of sample x (channel-major: x[c][row][col], *)
(* integers), scale S; rho: the fibre matrix                                  *)
Moved(rho, isom, h, w, x, o, q) ==
  LET p == Source(isom, h, w, q)
  IN Sum([c \in 1 .. Len(x) |-> IF rho[o][c] = 0 THEN 0 ELSE rho[o][c] * x[c][p[1]][p[2]]])
=============================================================================
