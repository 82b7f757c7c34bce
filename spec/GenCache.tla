------------------------------ MODULE GenCache ------------------------------
(* All histories  base request - environment action - request differing in   *)
(* one argument - base request again  (thorough: a third, differing request  *)
(* in between), over every kind of request and every argument.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
Deep == IOEnv.GEN_TIER = "thorough"
(* number of values each argument ranges over *)
Dom(kind) ==
  CASE kind = "kernel" -> [sp |-> 12, in |-> 6, out |-> 6, sig |-> 3, ring |-> 3, F |-> 3, T |-> 3, own |-> 2]
    [] kind = "diffop" -> [sp |-> 12, in |-> 6, out |-> 6, pow |-> 3, disc |-> 5, F |-> 3, T |-> 3, own |-> 2]
    [] kind \in {"conv", "tconv"} ->
         [sp |-> 12, in |-> 5, out |-> 5, ks |-> 3, dil |-> 2, sig |-> 3, ring |-> 3, fco |-> 4, off |-> 3, filt |-> 6, rec |-> 2, own |-> 2]
    [] kind = "dlayer" ->
         [sp |-> 12, in |-> 5, out |-> 5, ks |-> 2, dil |-> 2, ord |-> 3, pow |-> 3, off |-> 3, ang |-> 3, smo |-> 4, filt |-> 6, rec |-> 2, own |-> 2]
Kinds == {"kernel", "diffop", "conv", "tconv", "dlayer"}
Envs == <<"none", "double", "step", "eval", "grow", "half", "copy", "cache">>
Bases(kind) ==
  { [k |-> kind, a |-> [f \in DOMAIN Dom(kind) |-> IF f = "sp" THEN b[1] ELSE IF f \in {"in", "out"} THEN b[2] ELSE 0]] :
      b \in IF Deep THEN (0 .. 11) \X {0, 2}
            ELSE (IF kind \in {"kernel", "diffop"} THEN {0, 4, 7, 10} ELSE {0, 3, 10}) \X {0}
                 \cup ({0, 7} \X {2}) }
(* requests which keep a third of the basis, and differ in which *)
Thirds(kind) ==
  IF "filt" \notin DOMAIN Dom(kind) THEN {}
  ELSE { [b EXCEPT !.a["filt"] = v] : b \in Bases(kind), v \in {3, 4} }
Variants(r) ==
  { [r EXCEPT !.a[f] = v] : f \in IF "filt" \in DOMAIN r.a /\ r.a["filt"] > 2 THEN {"filt"} ELSE DOMAIN r.a, v \in 0 .. 11 }
Valid(r) == \A f \in DOMAIN r.a : r.a[f] < Dom(r.k)[f]
RECURSIVE Total(_)
Weight(r) == r.a["sp"] + 2 * r.a["in"] + 3 * r.a["out"]
Total(h) == IF h = <<>> THEN 0 ELSE (IF Head(h).o = "req" THEN Weight(Head(h).r) ELSE 1) + Total(Tail(h))
EnvFor(h) == [o |-> "env", e |-> Envs[1 + (Total(h) % Len(Envs))]]
Req(r) == [o |-> "req", r |-> r]
Init == hist = <<>>
Count == Len(SelectSeq(hist, LAMBDA x : x.o = "req"))
Last == hist[Len(hist)].r
First == hist[1].r
Target == IF Deep THEN 3 ELSE 2
Next ==
  \/ /\ hist = <<>> /\ \E k \in Kinds : \E b \in Bases(k) \cup Thirds(k) : hist' = <<Req(b)>>
  \/ /\ hist # <<>> /\ Count < Target /\ hist[Len(hist)].o = "req"
     /\ \E v \in { x \in Variants(Last) : Valid(x) /\ x # Last /\ (Count = 1 \/ (x # First /\ (Weight(x) + Weight(First)) % 5 = 0)) } :
          hist' = hist \o <<EnvFor(hist), Req(v)>>
  \/ /\ hist # <<>> /\ Count = Target
     /\ hist' = hist \o <<EnvFor(hist), Req(First)>>
     /\ PrintT("GEN " \o ToJson([h |-> hist']))
=============================================================================
