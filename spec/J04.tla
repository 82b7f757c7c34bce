-------------------------------- MODULE J04 ---------------------------------
(* P04: the irreps of a group are those of the specification.                *)
EXTENDS JBase, Rep
VARIABLES i, st
Tol == 3
OneIrrep(G, x, els) ==
  IF x.size # IrrepDim(G, x.jk[2]) THEN {"irrep-size"}
  ELSE Violated(<<
    <<"irrep-name-matches-frequency", x.name = x.jk>>,
    <<"irrep-lists-itself", x.self = <<x.jk>> /\ x.irr>>,
    <<"irrep-type", x.sumsq = EndoDim(G, x.jk[2])>>,
    <<"irrep-trivial", x.trivial = (x.jk = <<0, 0>>) /\ x.contains = x.trivial>>,
    <<"irrep-matrix", \A k \in 1 .. Len(els) : NearMat(x.mats[k], IrrepMat(G, x.jk[1], x.jk[2], els[k]), Tol)>>,
    <<"irrep-character", \A k \in 1 .. Len(els) :
         Near(x.chars[k], TraceOf(IrrepMat(G, x.jk[1], x.jk[2], els[k])), Tol + 1)>> >>)
Count(s, x) == Cardinality({k \in 1 .. Len(s) : s[k] = x})
ToSetOf(s) == { s[k] : k \in 1 .. Len(s) }
Failing(e, s) ==
  CASE e.op = "irreps" ->
         LET es == ElemSeq(e.g) jks == [k \in 1 .. Len(e.irreps) |-> e.irreps[k].jk] IN
         UNION { OneIrrep(e.g, e.irreps[k], es) : k \in 1 .. Len(e.irreps) }
         \cup OneIrrep(e.g, e.triv, es)
         \cup Violated(<<
           <<"irreps-are-exactly-the-documented-frequencies",
              /\ ToSetOf(jks) = Irreps(e.g) /\ Len(jks) = Cardinality(Irreps(e.g))>>,
           <<"irreps-indexed-by-name", e.keys = jks>>,
           <<"trivial-representation", e.triv.jk = <<0, 0>> >>,
           <<"dimensions-account-for-the-order",
              SumSeq([k \in 1 .. Len(e.irreps) |-> (e.irreps[k].size * e.irreps[k].size) \div e.irreps[k].sumsq]) = Order(e.g)>>,
           <<"pairwise-inequivalent-and-irreducible",
              \A k, l \in 1 .. Len(e.irreps) :
                 Multiplicity(e.g, e.irreps[k].chars, e.irreps[l].jk[1], e.irreps[l].jk[2]) = (IF k = l THEN 1 ELSE 0)>> >>)
    [] e.op = "get" -> Violated(<< <<"irrep-by-frequency", e.same /\ e.irr.jk = e.jk>> >>) \cup OneIrrep(e.g, e.irr, e.els)
    [] e.op = "bad" -> Violated(<< <<"exactly-the-documented-frequencies-are-accepted",
           \A k \in 1 .. Len(e.bad) :
              LET jk == e.bad[k][1]
                  valid == IF e.g.c THEN jk \in IrrepsUpTo(e.g, 100) ELSE jk \in Irreps(e.g)
              IN e.bad[k][2] = ~valid>> >>)
    [] e.op = "cont" ->
         UNION { OneIrrep(e.g, e.irreps[k], e.els) : k \in 1 .. Len(e.irreps) }
         \cup OneIrrep(e.g, e.triv, e.els)
         \cup Violated(<<
           <<"frequencies-up-to-the-requested-maximum-offered", IrrepsUpTo(e.g, e.maxf) \subseteq ToSetOf(e.names)>>,
           <<"irrep-by-frequency", \A k \in 1 .. Len(e.irreps) : e.irreps[k].jk = e.want[k]>>,
           <<"trivial-representation", e.triv.jk = <<0, 0>> >> >>)
    [] e.op = "decomp" -> Violated(<<
           <<"decomposition-multiplicities",
              \A jk \in Irreps(e.g) : Count(e.irreps, jk) = Multiplicity(e.g, e.chars, jk[1], jk[2])>>,
           <<"decomposition-uses-irreps", \A k \in 1 .. Len(e.irreps) : e.irreps[k] \in Irreps(e.g)>>,
           <<"size-is-the-sum", SumSeq([k \in 1 .. Len(e.irreps) |-> IrrepDim(e.g, e.irreps[k][2])]) = e.size>>,
           <<"contains-trivial", e.contains = (Multiplicity(e.g, e.chars, 0, 0) > 0)>>,
           <<"is-trivial", e.trivial = (e.size = 1 /\ Multiplicity(e.g, e.chars, 0, 0) = 1)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
