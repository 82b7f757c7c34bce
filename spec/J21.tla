-------------------------------- MODULE J21 ---------------------------------
(* P21: exported networks compute, for every later input, what the network   *)
(* computed in evaluation mode when it was exported.  State: the life of the *)
(* network and the values of each version at the recorded points.            *)
EXTENDS JBase, Net
VARIABLES i, st
Near(a, b, t) == a - b <= t /\ b - a <= t
Tol == 60
Same(u, v) == Len(u) = Len(v) /\ \A k \in 1 .. Len(u) : Near(u[k], v[k], Tol)
RefOf(s, o) == { k \in 1 .. Len(s.refs) : s.refs[k].key = Value(o) }
Matches(s, o, out) == \E k \in RefOf(s, o) : LET f == s.refs[k] IN
   /\ out.bad = 0 /\ \A n \in 1 .. 2 : out.shp[n] = f.shp[n] /\ Same(out.v[n], f.v[n])
Good(e, s, life) ==
  IF Len(e.outs) # Len(life.objs) THEN {"number-of-objects"} ELSE
  Violated(<<
    <<"mode", \A n \in 1 .. Len(e.outs) : e.outs[n].det = Determined(life.objs[n])>>,
    <<"versions-recorded", \A n \in 1 .. Len(e.outs) : e.outs[n].det => RefOf(s, life.objs[n]) # {}>>,
    <<"exported-network-is-plain-pytorch", e.pure>>,
    <<"precision", \A n \in 1 .. Len(e.outs) : e.outs[n].dtype>>,
    <<"exported-computes-what-the-network-computed", \A n \in 1 .. Len(e.outs) :
        life.objs[n].kind = "plain" => Matches(s, life.objs[n], e.outs[n])>>,
    <<"network-in-evaluation-mode", \A n \in 1 .. Len(e.outs) :
        (life.objs[n].kind = "net" /\ e.outs[n].det) => Matches(s, life.objs[n], e.outs[n])>> >>)
Failing(e, s) ==
  CASE e.op = "net" -> Violated(<< <<"network-exports", Exports(e.ts)>>, <<"finite", \A k \in 1 .. Len(e.refs) : e.refs[k].bad = 0>> >>)
    [] e.op = "step" -> IF ~NEnabled(s.life, e.o) THEN {"harness-step-not-enabled"} ELSE Good(e, s, NApply(s.life, e.o))
    [] e.op = "single" -> LET eq == \A n \in 1 .. Len(e.out) : e.out[n].same /\ e.out[n].bad = 0 /\ Same(e.out[n].v, e.out[n].w) IN
         Violated(<< <<"supported-network-exports", Exports(e.ts) => e.raised = "">>,
                     <<"exported-computes-the-same-or-is-refused", e.raised # "" \/ eq>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == CASE e.op = "net" -> [refs |-> e.refs, life |-> NStart]
                [] e.op = "step" -> [s EXCEPT !.life = NApply(s.life, e.o)]
                [] OTHER -> s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
