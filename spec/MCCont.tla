------------------------------- MODULE MCCont -------------------------------
(* All containers reachable by a few construction steps: values fit types,   *)
(* grouping a chain does not matter, parallel containers route every field   *)
(* exactly once, and sorting levels only permute.                            *)
EXTENDS Cont
CONSTANTS MaxSteps
VARIABLES mods, n
SZ == << <<1, 2, 2>> >>
RK == << <<3, 2, 1>> >>
T1 == [sp |-> 1, fs |-> <<2, 1, 3, 1>>]
T2 == [sp |-> 1, fs |-> <<1, 2>>]
X(T) == [k \in 1 .. Len(T.fs) |-> [c \in 1 .. SZ[1][T.fs[k]] |-> ((7 * k + 3 * c) % 11) - 5]]
Fits(x, T) == Len(x) = Len(T.fs) /\ \A k \in 1 .. Len(x) : Len(x[k]) = SZ[1][T.fs[k]]
Leaves == { [k |-> "id", T |-> T1], [k |-> "relu", T |-> T1], [k |-> "scale", T |-> T1, v |-> 2], [k |-> "select", T |-> T1, ix |-> <<3, 0>>],
            [k |-> "scale", T |-> T2, v |-> 3], [k |-> "select", T |-> T2, ix |-> <<1, 0, 0>>] }
Labels == { lb \in [1 .. 4 -> 1 .. 2] : \A l \in 1 .. 2 : \E k \in 1 .. 4 : lb[k] = l }
(* a parallel container whose branches scale by different factors *)
Par(T, lb, re) == [k |-> "multi", T |-> T, lb |-> lb, re |-> re,
  ms |-> << [m |-> [k |-> "scale", T |-> Branch(T, lb, re, SZ, RK, 2), v |-> 5], ls |-> <<2>>],
            [m |-> [k |-> "scale", T |-> Branch(T, lb, re, SZ, RK, 1), v |-> 7], ls |-> <<1>>] >>]
Init == n = 0 /\ mods = <<[k |-> "id", T |-> T1], [k |-> "relu", T |-> T1]>>
Put(d, m) == mods' = [mods EXCEPT ![d] = m] /\ n' = n + 1
Next == n < MaxSteps /\
  \/ \E d \in 1 .. 2, m \in Leaves : Put(d, m)
  \/ \E a, b, d \in 1 .. 2 : Put(d, [k |-> "seq", m |-> <<mods[a], mods[b]>>])
  \/ \E d \in 1 .. 2, lb \in {<<1, 2, 1, 2>>, <<2, 2, 1, 2>>}, re \in {0, 2} : Put(d, Par(T1, lb, re))
Ok(m) == Typing(m, SZ, RK) # Bad20
ValuesFitTypes == \A d \in 1 .. 2 : \A t \in {Typing(mods[d], SZ, RK)} :
  t # Bad20 => Fits(Eval(mods[d], <<X(t.ins[1])>>, SZ, RK), t.out)
Grouping == \A a, b \in 1 .. 2 : \A c \in Leaves :
  LET l == [k |-> "seq", m |-> << [k |-> "seq", m |-> <<mods[a], mods[b]>>], c >>]
      r == [k |-> "seq", m |-> << mods[a], [k |-> "seq", m |-> <<mods[b], c>>] >>]
      f == [k |-> "seq", m |-> << mods[a], mods[b], c >>] IN
  /\ (Ok(l) <=> Ok(f)) /\ (Ok(r) <=> Ok(f))
  /\ Ok(f) => \A x \in {<<X(Typing(f, SZ, RK).ins[1])>>} : Eval(l, x, SZ, RK) = Eval(f, x, SZ, RK) /\ Eval(r, x, SZ, RK) = Eval(f, x, SZ, RK)
ASSUME \A lb \in Labels, re \in 0 .. 3 :
  \A P \in {TLCEval(Par(T1, lb, re))} : \A o \in {TLCEval(Order(T1, lb, re, SZ, RK))} :
  /\ { o[k] : k \in 1 .. 4 } = 0 .. 3
  /\ (re > 0 => \A k \in 1 .. 3 : lb[o[k] + 1] <= lb[o[k + 1] + 1])
  /\ (re > 1 => \A k \in 1 .. 3 : lb[o[k] + 1] = lb[o[k + 1] + 1] => SZ[1][T1.fs[o[k] + 1]] <= SZ[1][T1.fs[o[k + 1] + 1]])
  /\ (re = 1 => \A l \in 1 .. 2 : Branch(T1, lb, 1, SZ, RK, l) = Branch(T1, lb, 0, SZ, RK, l))
  /\ Ok(P)
  (* every channel arrives once, scaled by its own branch *)
  /\ \A y \in {Eval(P, <<X(T1)>>, SZ, RK)} : Total(JoinF(y)) =
       Total([k \in 1 .. 4 |-> (IF lb[k] = 2 THEN 5 ELSE 7) * Total(X(T1)[k])])
  (* wrong labels, a missing branch or a foreign type are ill-typed *)
  /\ ~Ok([P EXCEPT !.ms = <<P.ms[1]>>]) /\ ~Ok([P EXCEPT !.ms[1].ls = <<3>>]) /\ ~Ok([P EXCEPT !.lb = Tail(lb)])
  /\ ~Ok([P EXCEPT !.ms[1].m.T = [@ EXCEPT !.fs = @ \o <<1>>]])
=============================================================================
