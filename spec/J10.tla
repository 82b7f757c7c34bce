-------------------------------- MODULE J10 ---------------------------------
(* P10: in every recorded history each request returns what a process that   *)
(* made only that request gets, equal requests get equal results, and the    *)
(* objects obtained earlier keep computing what they did.  The state holds   *)
(* the results of the requests made so far in the history.                   *)
EXTENDS JBase, Trig
VARIABLES i, st
Tol == 25
Same(x, y) == Len(x) = Len(y) /\ \A k \in 1 .. Len(x) : Near(x[k], y[k], Tol)
Failing(e, s) ==
  CASE e.op = "start" -> {}
    [] e.op = "env" -> {}
    [] e.op = "request" -> Violated(<<
         <<"as-in-a-fresh-process", Same(e.got, e.ref)>>,
         <<"repeated-request-equal-result", \A k \in 1 .. Len(s) : s[k].r = e.r => Same(e.got, s[k].got)>>,
         <<"result-is-a-number", e.bad = 0>> >>)
    [] e.op = "later" -> Violated(<<
         <<"earlier-object-unchanged", e.at \in 1 .. Len(s) /\ e.r = s[e.at].r /\ Same(e.got, s[e.at].got)>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == CASE e.op = "start" -> <<>>
                [] e.op = "request" -> Append(s, [r |-> e.r, got |-> e.got])
                [] OTHER -> s
JInit == i = 1 /\ st = <<>>
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
