------------------------------- MODULE Shape --------------------------------
(* Output sizes of the layers, one axis at a time.                           *)
(* q: [k, s, p, d, ceil, op, o, num, den], only the fields the kind needs.   *)
EXTENDS Integers, Sequences
WinLen(q, n) ==
  LET m == n + 2 * q.p - q.d * (q.k - 1) - 1
      fl == (m \div q.s) + 1
      ce == ((m + q.s - 1) \div q.s) + 1
  IN IF ~q.ceil THEN fl ELSE IF (ce - 1) * q.s >= n + q.p THEN ce - 1 ELSE ce
TLen(q, n) == (n - 1) * q.s - 2 * q.p + q.d * (q.k - 1) + q.op + 1
OutLen(geom, q, n) ==
  CASE geom = "same" -> n
    [] geom = "win" -> WinLen(q, n)
    [] geom = "tconv" -> TLen(q, n)
    [] geom = "fixed" -> q.o
    [] geom = "scale" -> (n * q.num) \div q.den
    [] geom = "aamax" -> ((n + 4 * q.p - q.k) \div q.s) + 1
(* composition of layers *)
RECURSIVE Chain(_, _)
Chain(ls, n) == IF ls = <<>> THEN n ELSE Chain(Tail(ls), OutLen(ls[1].geom, ls[1].q, n))
=============================================================================
