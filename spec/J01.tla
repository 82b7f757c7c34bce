-------------------------------- MODULE J01 ---------------------------------
(* P01: recorded compositions, inverses, memberships and equalities of group *)
(* elements are those of the specified groups.                               *)
EXTENDS JBase, Group
VARIABLES i, st
Member(G, a) == (a[1] = 0 \/ (Flip(G) /\ a[1] = 1)) /\ a[2] >= 0 /\ a[2] < G.n

Failing(e, s) ==
  CASE e.op = "group" -> Violated(<<
         <<"kind", e.kind = e.g>>,
         <<"order", e.order = IF e.g.c THEN -1 ELSE Order(e.g)>>,
         <<"identity", e.id = Ident>>,
         <<"repeated-request-equal", e.again>>,
         <<"distinct-groups-unequal", \A k \in 1 .. Len(e.others) : ~e.others[k]>>,
         <<"elements-enumerate-the-group",
             e.g.c \/ (/\ Len(e.elements) = Order(e.g)
                       /\ { e.elements[k] : k \in 1 .. Len(e.elements) } = Elems(e.g))>>,
         <<"names-match-elements", e.g.c \/ e.nnames = Order(e.g)>>,
         <<"testing-elements-cover", e.g.c \/ { e.testing[k] : k \in 1 .. Len(e.testing) } = Elems(e.g)>> >>)
    [] e.op = "member" -> Violated(<< <<"membership", e.res = Member(e.g, e.a)>> >>)
    [] e.op = "foreign" -> Violated(<< <<"non-elements-rejected", \A k \in 1 .. Len(e.res) : ~e.res[k]>> >>)
    [] e.op = "inv" -> Violated(<<
         <<"inverse", e.res = Inv(e.g, e.a)>>,
         <<"membership", e.mem>>, <<"inverse-is-member", e.rmem>>,
         <<"equality-reflexive", e.self>>,
         <<"inverse-involutive", e.back>>,
         <<"inverse-cancels", e.unit>> >>)
    [] e.op = "mul" -> Violated(<<
         <<"composition", e.res = Mul(e.g, e.a, e.b)>>,
         <<"composition-acts-as-isometry",
             e.res[2] >= 0 => \A p \in {0, 1 % e.g.n} :
                 ActCircle(e.g, e.res, p) = ActCircle(e.g, e.a, ActCircle(e.g, e.b, p))>>,
         <<"closed", e.rmem>>,
         <<"equality", e.eq = (e.a = e.b)>>,
         <<"inverse-antihomomorphism", e.anti>>,
         <<"associative", e.l = e.r /\ e.l = Mul(e.g, Mul(e.g, e.a, e.b), e.c)>>,
         <<"angles-modulo-turn", e.g.c => e.wrap /\ e.res2 = Mul(e.g, e.a, e.b)>>,
         <<"distinct-angles-differ", e.g.c => ~e.far>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
