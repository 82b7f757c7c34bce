-------------------------------- MODULE J02 ---------------------------------
(* P02: subgroup triples (group, inclusion, restriction).                    *)
EXTENDS JBase, Group
VARIABLES i, st
Failing(e, s) ==
  CASE e.op = "sub" -> Violated(<<
         <<"valid-identifier-in-the-model", ValidId(e.g, e.id)>>,
         <<"subgroup-kind-and-order", e.sg = SubGroup(e.g, e.id)>>,
         <<"repeated-request-equal", e.same>>,
         <<"inclusion", \A k \in 1 .. Len(e.up) : e.up[k][2] = Embed(e.g, e.id, e.up[k][1])>>,
         <<"inclusion-injective", \A k, l \in 1 .. Len(e.up) : e.up[k][2] = e.up[l][2] => e.up[k][1] = e.up[l][1]>>,
         <<"inclusion-homomorphism", \A k \in 1 .. Len(e.prod) :
              /\ e.prod[k][3] = e.prod[k][4]
              /\ e.prod[k][3] = Mul(e.g, Embed(e.g, e.id, e.prod[k][1]), Embed(e.g, e.id, e.prod[k][2]))>>,
         <<"restriction-of-members", \A k \in 1 .. Len(e.down) :
              LET p == Project(e.g, e.id, e.down[k][1]) IN p # <<>> => e.down[k][2] = p>>,
         <<"non-members-rejected", \A k \in 1 .. Len(e.down) :
              Project(e.g, e.id, e.down[k][1]) = <<>> => e.down[k][2] = <<>>>> >>)
    [] e.op = "two" ->
         LET H == SubGroup(e.g, e.id) IN Violated(<<
         <<"subgroup-kind-and-order", e.sg = SubGroup(H, e.id2)>>,
         <<"two-steps-compose", \A k \in 1 .. Len(e.up) :
              /\ e.up[k][2] = Embed(e.g, e.id, Embed(H, e.id2, e.up[k][1]))
              /\ e.up[k][3] = e.up[k][1]>> >>)
    [] e.op = "bad" -> Violated(<< <<"invalid-identifier-rejected", ValidId(e.g, e.id) \/ e.raised>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
