------------------------------- MODULE MCLife -------------------------------
(* Properties of the life-cycle design, over all histories within bounds.    *)
(* hist remembers, independently of the design, the version each layer had   *)
(* when it last left training mode.                                          *)
EXTENDS Life, FiniteSets
CONSTANTS V, MaxObjs, MaxSnaps, MaxSteps
VARIABLES st, atSwitch, snapSwitch, n, last
Init == st = Start /\ atSwitch = <<-1>> /\ snapSwitch = <<>> /\ n = 0 /\ last = [o |-> "none", i |-> 1]
Track(op) ==
  CASE op.o = "eval" \/ op.o = "export" ->
         LET a == IF st.objs[op.i].mode = "train" THEN [atSwitch EXCEPT ![op.i] = st.objs[op.i].w] ELSE atSwitch
         IN IF op.o = "export" THEN Append(a, a[op.i]) ELSE a
    [] op.o = "train" -> [atSwitch EXCEPT ![op.i] = -1]
    [] op.o = "load" -> IF st.objs[op.i].mode = "eval" THEN [atSwitch EXCEPT ![op.i] = snapSwitch[op.s]] ELSE atSwitch
    [] op.o = "copy" -> Append(atSwitch, atSwitch[op.i])
    [] op.o = "fresh" -> Append(atSwitch, -1)
    [] OTHER -> atSwitch
Next == n < MaxSteps /\ \E op \in { x \in Ops(st, V, MaxObjs, MaxSnaps) : x.o # "cast" /\ (x.o = "update" => x.how = 0) } :
   /\ st' = Apply(st, op) /\ atSwitch' = Track(op) /\ n' = n + 1 /\ last' = op
   /\ snapSwitch' = IF op.o = "save" THEN Append(snapSwitch, atSwitch[op.i]) ELSE snapSwitch
View == <<st, atSwitch, snapSwitch, n>>
Layers == { i \in 1 .. Len(st.objs) : st.objs[i].kind = "layer" }
(* evaluation computes with the parameters of the last switch *)
EvalIsLastSwitch == \A i \in Layers : st.objs[i].mode = "eval" => Computes(st.objs[i]) = atSwitch[i] /\ atSwitch[i] # -1
TrainIsCurrent == \A i \in Layers : st.objs[i].mode = "train" => Computes(st.objs[i]) = st.objs[i].w
StoredIffEval == \A i \in Layers : (st.objs[i].mode = "eval") <=> (st.objs[i].c # -1)
(* exported modules never change; steps on one object leave the others alone *)
Frame == [][\A i \in 1 .. Len(st.objs) : i # last'.i => st'.objs[i] = st.objs[i]]_<<st, atSwitch, snapSwitch, n, last>>
=============================================================================
