-------------------------------- MODULE Life --------------------------------
(* The life of a convolution layer: its parameters (by version number), its  *)
(* mode, the filter it stores in evaluation mode, copies, saved states and   *)
(* exported modules.                                                         *)
(*  objs:  sequence of [kind, w, mode, c, hasf]                              *)
(*    kind "layer" | "plain" (exported);  w: version of the parameters;      *)
(*    mode "train" | "eval";  c: version the stored filter was built from    *)
(*    (-1: built from nothing);  hasf: a filter is part of the saved state   *)
(*  snaps: sequence of [w, mode, c, hasf]                                    *)
EXTENDS Integers, Sequences
Layer(w) == [kind |-> "layer", w |-> w, mode |-> "train", c |-> -1, hasf |-> TRUE]
Start == [objs |-> <<Layer(0)>>, snaps |-> <<>>]
ToEval(o) == IF o.mode = "train" THEN [o EXCEPT !.mode = "eval", !.c = o.w, !.hasf = TRUE] ELSE o
ToTrain(o) == [o EXCEPT !.mode = "train", !.c = -1, !.hasf = FALSE]
(* the version that determines what the object computes *)
Computes(o) == IF o.kind = "plain" THEN o.w ELSE IF o.mode = "train" THEN o.w ELSE o.c
(* states may be exchanged between layers that store the same entries; the   *)
(* documentation asks to save and load in evaluation mode otherwise          *)
CanLoad(o, s) == /\ o.kind = "layer" /\ o.hasf = s.hasf
                 /\ (o.mode = "eval" => s.mode = "eval")
Enabled(st, op) ==
  LET o == st.objs[op.i] IN
  CASE op.o \in {"train", "eval", "update", "save", "export", "cast"} -> o.kind = "layer"
    [] op.o = "load" -> op.s <= Len(st.snaps) /\ CanLoad(o, st.snaps[op.s])
    [] op.o \in {"copy", "fresh"} -> TRUE
Apply(st, op) ==
  LET o == st.objs[op.i] IN
  CASE op.o = "train" -> [st EXCEPT !.objs[op.i] = ToTrain(o)]
    [] op.o = "eval" -> [st EXCEPT !.objs[op.i] = ToEval(o)]
    [] op.o = "update" -> [st EXCEPT !.objs[op.i].w = op.v]
    [] op.o = "cast" -> st
    [] op.o = "save" -> [st EXCEPT !.snaps = Append(@, [w |-> o.w, mode |-> o.mode, c |-> o.c, hasf |-> o.hasf])]
    [] op.o = "load" -> LET s == st.snaps[op.s] IN
         [st EXCEPT !.objs[op.i].w = s.w, !.objs[op.i].c = IF o.mode = "eval" THEN s.c ELSE o.c]
    [] op.o = "copy" -> [st EXCEPT !.objs = Append(@, o)]
    [] op.o = "fresh" -> [st EXCEPT !.objs = Append(@, Layer(op.v))]
    [] op.o = "export" -> [st EXCEPT !.objs = Append([@ EXCEPT ![op.i] = ToEval(o)],
         [kind |-> "plain", w |-> ToEval(o).c, mode |-> "eval", c |-> -1, hasf |-> FALSE])]
Ops(st, V, maxobjs, maxsnaps) ==
  UNION { { x \in ({ [o |-> k, i |-> i] : k \in {"train", "eval", "cast"} }
             \cup { [o |-> "update", i |-> i, v |-> v, how |-> h] : v \in V, h \in 0 .. 2 }
             \cup (IF Len(st.snaps) < maxsnaps THEN {[o |-> "save", i |-> i]} ELSE {})
             \cup { [o |-> "load", i |-> i, s |-> s] : s \in 1 .. Len(st.snaps) }
             \cup (IF Len(st.objs) < maxobjs THEN {[o |-> "copy", i |-> i], [o |-> "export", i |-> i]}
                      \cup { [o |-> "fresh", i |-> i, v |-> v] : v \in V } ELSE {})) : Enabled(st, x) }
          : i \in 1 .. Len(st.objs) }
=============================================================================
