-------------------------------- MODULE J03 ---------------------------------
(* P03: every representation built by a program of constructors is the one   *)
(* the specification builds, is a homomorphism, and equals its declared      *)
(* decomposition into irreps.                                                *)
EXTENDS JBase, RepProg
VARIABLES i, st
Failing(e, s) ==
  CASE e.op = "exc" -> {"raised"}
    [] e.op = "step" /\ e.o.o = "start" -> Violated(<< <<"group", e.isgroup>> >>)
    [] e.op = "step" /\ e.o.o # "start" ->
       LET t == Apply(s, e.o)
           g == t.g
           d == Top(t)
           irrs == [k \in 1 .. Len(e.irreps) |-> [t |-> "irrep", j |-> e.irreps[k][1], k |-> e.irreps[k][2]]]
           Tol == 40 + (MaxAbs(e.q) + MaxAbs(e.qi) + MaxAbs(e.mats[Len(e.mats)])) \div 500
           ds == [t |-> "sum", s |-> irrs]
       IN IF ~e.isgroup THEN {"group"}
          ELSE IF e.size # Size(g, d) THEN {"size"}
          ELSE IF ~(/\ \A k \in 1 .. Len(e.mats) : SquareOf(e.mats[k], e.size)
                    /\ SquareOf(e.q, e.size) /\ SquareOf(e.qi, e.size)
                    /\ Size(g, ds) = e.size) THEN {"declared-sizes"}
          ELSE Violated(<<
            <<"equals-constructed-representation",
               \A k \in 1 .. Len(e.els) : NearMat(e.mats[k], Mat(g, d, e.els[k]), Tol)>>,
            <<"homomorphism",
               \A k \in 1 .. Len(e.pairs) : LET p == e.pairs[k] IN
                  NearMat(p[5], MulAB(p[3], p[4]), Tol)>>,
            <<"inverse-to-inverse",
               \A k \in 1 .. Len(e.pairs) : LET p == e.pairs[k] IN
                  NearMat(Eye(e.size), MulAB(p[3], p[6]), Tol)>>,
            <<"identity-to-identity",
               \A k \in 1 .. Len(e.els) : e.els[k] = Ident => NearMat(e.mats[k], Eye(e.size), 2)>>,
            <<"change-of-basis-inverse", NearMat(MulAB(e.q, e.qi), Eye(e.size), Tol)>>,
            <<"equals-declared-decomposition",
               \A k \in 1 .. Len(e.els) :
                  NearMat(e.mats[k], MulAB(e.q, MulAB(Mat(g, ds, e.els[k]), e.qi)), Tol)>>,
            <<"character-is-trace",
               \A k \in 1 .. Len(e.els) : Near(e.chars[k], TraceOf(e.mats[k]), 10 + e.size)>>,
            <<"disentangled-parts",
               e.o.o # "dis" \/
               (/\ \A r \in 1 .. e.size : Cardinality({c \in 1 .. e.size : e.P[r][c] = S}) = 1
                                           /\ \A c \in 1 .. e.size : e.P[r][c] \in {0, S}
                /\ \A k \in 1 .. Len(e.els) :
                  NearMat(MulAB(e.P, MulAB(e.mats[k], Transpose(e.P))), BlockDiag(e.parts[k]), Tol))>> >>)
    [] OTHER -> {"unknown-event"}
Step(s, e) == IF e.op = "step" THEN Apply(s, e.o) ELSE s
JInit == i = 1 /\ st = [g |-> [k |-> "C", n |-> 1, c |-> FALSE], s |-> <<>>]
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
