--------------------------------- MODULE BN ---------------------------------
(* Batch normalisation as a state machine.  The stored statistics are, per   *)
(* slot (a field, or an irrep of a field), a mean and a variance, in units   *)
(* of 1/100000, with the number of training batches seen.                    *)
EXTENDS Integers, Sequences
U == 100000
Start(k) == [mode |-> "train", mean |-> [i \in 1 .. k |-> 0], var |-> [i \in 1 .. k |-> U], n |-> 0]
RdDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
(* mom: thousandths, or -1 for the cumulative average *)
Blend(mom, n, old, new) == IF mom = -1 THEN old + RdDiv(new - old, n) ELSE old + RdDiv((new - old) * mom, 1000)
(* one training batch with statistics new[i] = <<mean, var>> *)
Seen(st, mom, new) ==
  [st EXCEPT !.n = @ + 1,
             !.mean = [i \in DOMAIN @ |-> Blend(mom, st.n + 1, @[i], new[i][1])],
             !.var = [i \in DOMAIN @ |-> Blend(mom, st.n + 1, @[i], new[i][2])]]
Reset(st) == [Start(Len(st.mean)) EXCEPT !.mode = st.mode]
(* w: [cur, saved]; saved = <<>> or <<statistics>> *)
Apply(w, mom, op, new) ==
  CASE op.o = "mode" -> [w EXCEPT !.cur.mode = op.m]
    [] op.o = "pass" -> IF w.cur.mode = "train" THEN [w EXCEPT !.cur = Seen(w.cur, mom, new)] ELSE w
    [] op.o = "reset" -> [w EXCEPT !.cur = Reset(w.cur)]
    [] op.o = "save" -> [w EXCEPT !.saved = <<w.cur>>]
    [] op.o = "load" -> [w EXCEPT !.cur = [w.saved[1] EXCEPT !.mode = "train"]]     \* into a new layer
    [] op.o = "restore" -> [w EXCEPT !.cur = [w.saved[1] EXCEPT !.mode = w.cur.mode]]
    [] op.o = "copy" -> w
Ops(w, B) ==
  { [o |-> "pass", b |-> b] : b \in B } \cup { [o |-> "mode", m |-> m] : m \in {"train", "eval"} }
  \cup {[o |-> "reset"], [o |-> "save"], [o |-> "copy"]}
  \cup (IF w.saved = <<>> THEN {} ELSE {[o |-> "load"], [o |-> "restore"]})
=============================================================================
