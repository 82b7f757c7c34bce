-------------------------------- MODULE Net ---------------------------------
(* The life of a network up to and after its export to plain PyTorch.        *)
(* A network consists of stages with parameters, stages which keep running   *)
(* statistics and stages with neither; what it computes in evaluation mode   *)
(* is determined by three version numbers:                                   *)
(*   c  the parameters its convolutions were expanded from when the network  *)
(*      last left training mode,                                             *)
(*   w  the current parameters (read by all other stages),                   *)
(*   s  the statistics (a new version after each training pass).             *)
(* objs:  sequence of [kind "net" | "plain", mode, w, c, s, prec]            *)
(* snaps: saved states [w, c, s, mode, hasf, plain]; ns: statistics so far   *)
EXTENDS Integers, Sequences
Fresh == [kind |-> "net", mode |-> "train", w |-> 0, c |-> -1, s |-> 0, hasf |-> TRUE, prec |-> "single"]
NStart == [objs |-> <<Fresh>>, snaps |-> <<>>, ns |-> 0]
ToEval(o) == IF o.mode = "train" THEN [o EXCEPT !.mode = "eval", !.c = o.w, !.hasf = TRUE] ELSE o
ToTrain(o) == [o EXCEPT !.mode = "train", !.c = -1, !.hasf = FALSE]
(* what determines the values: only evaluation mode is deterministic *)
Determined(o) == o.mode = "eval"
Value(o) == << o.c, o.w, o.s >>
Plain(o) == [kind |-> "plain", mode |-> "eval", w |-> o.w, c |-> o.c, s |-> o.s, hasf |-> TRUE, prec |-> o.prec]
CanLoadN(o, s) == /\ o.kind = s.kind
                  /\ (o.kind = "net" => o.hasf = s.hasf /\ (o.mode = "eval" => s.mode = "eval"))
NEnabled(st, op) ==
  LET o == st.objs[op.i] IN
  CASE op.o \in {"train", "eval", "update", "export"} -> o.kind = "net"
    [] op.o = "pass" -> o.kind = "net" /\ o.mode = "train"
    [] op.o = "look" -> Determined(o)
    [] op.o = "load" -> op.s <= Len(st.snaps) /\ CanLoadN(o, st.snaps[op.s])
    [] op.o = "again" -> o.kind = "plain"
    [] op.o \in {"copy", "save", "cast"} -> TRUE
NApply(st, op) ==
  LET o == st.objs[op.i] IN
  CASE op.o = "train" -> [st EXCEPT !.objs[op.i] = ToTrain(o)]
    [] op.o = "eval" -> [st EXCEPT !.objs[op.i] = ToEval(o)]
    [] op.o = "update" -> [st EXCEPT !.objs[op.i].w = op.v]
    [] op.o = "pass" -> [st EXCEPT !.objs[op.i].s = st.ns + 1, !.ns = @ + 1]
    [] op.o = "look" -> st
    [] op.o = "cast" -> [st EXCEPT !.objs[op.i].prec = op.p]
    [] op.o = "save" -> [st EXCEPT !.snaps = Append(@, o)]
    [] op.o = "load" -> LET s == st.snaps[op.s] IN
         [st EXCEPT !.objs[op.i].w = s.w, !.objs[op.i].s = s.s, !.objs[op.i].c = IF o.mode = "eval" THEN s.c ELSE @]
    [] op.o = "copy" -> [st EXCEPT !.objs = Append(@, o)]
    (* exporting puts the network in evaluation mode *)
    [] op.o = "export" -> [st EXCEPT !.objs = Append([@ EXCEPT ![op.i] = ToEval(o)], Plain(ToEval(o)))]
    (* the saved entries of an exported module, loaded by the export of a new network *)
    [] op.o = "again" -> [st EXCEPT !.objs = Append(@, o)]
NOps(st, V, maxobjs, maxsnaps, maxstat) ==
  UNION { { x \in ({ [o |-> k, i |-> i] : k \in {"train", "eval", "look"} }
             \cup (IF st.ns < maxstat THEN {[o |-> "pass", i |-> i]} ELSE {})
             \cup { [o |-> "cast", i |-> i, p |-> p] : p \in {"single", "double"} }
             \cup { [o |-> "update", i |-> i, v |-> v, how |-> h] : v \in V, h \in 0 .. 2 }
             \cup (IF Len(st.snaps) < maxsnaps THEN {[o |-> "save", i |-> i]} ELSE {})
             \cup { [o |-> "load", i |-> i, s |-> s] : s \in 1 .. Len(st.snaps) }
             \cup (IF Len(st.objs) < maxobjs THEN {[o |-> "copy", i |-> i], [o |-> "export", i |-> i], [o |-> "again", i |-> i]}
                   ELSE {})) : NEnabled(st, x) }
          : i \in 1 .. Len(st.objs) }
(* ------------------------------------------------ which networks export *)
(* stages: sequence of [k, sizes (of the input fields), track]; containers   *)
(* export exactly when everything in them does                               *)
Contig(sizes) == \A a, b \in 1 .. Len(sizes) : (a < b /\ sizes[a] = sizes[b]) => \A m \in a .. b : sizes[m] = sizes[a]
StageExports(t) ==
  CASE t.k = "gpool" -> \A a \in 1 .. Len(t.sizes) : t.sizes[a] = t.sizes[1]
    [] t.k = "innerbn" -> t.track /\ Contig(t.sizes)
    [] OTHER -> t.k \in {"identity", "restrict", "relu", "elu", "dropout", "maxpool", "maxpoola", "adaptavg", "adaptmax",
                         "upsample", "conv", "tconv", "diff"}
Exports(ts) == \A n \in 1 .. Len(ts) : StageExports(ts[n])
=============================================================================
