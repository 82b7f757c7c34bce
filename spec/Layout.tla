------------------------------ MODULE Layout --------------------------------
(* The weights of a steerable layer: each one belongs to one pair of irreps, *)
(* one in an output field and one in an input field.  A field type is given  *)
(* by the number of irreps of each of its fields; irreps are numbered        *)
(* through all fields ("position"), or within their field ("index").         *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Before(_, _)
Before(ns, f) == IF f = 1 THEN 0 ELSE ns[f - 1] + Before(ns, f - 1)
Total(ns) == Before(ns, Len(ns) + 1)
(* position (from 0) of the x-th irrep (from 0) of field f (from 0) *)
Position(ns, f, x) == Before(ns, f + 1) + x
Places(ns) == { <<f, x>> \in (0 .. Len(ns) - 1) \X (0 .. 20) : x < ns[f + 1] }
PlaceOf(ns, p) == CHOOSE q \in Places(ns) : Position(ns, q[1], q[2]) = p
(* a description d is well placed *)
WellPlaced(ni, no, d) ==
  /\ <<d.inf, d.ini>> \in Places(ni) /\ <<d.outf, d.outi>> \in Places(no)
  /\ d.inp = Position(ni, d.inf, d.ini) /\ d.outp = Position(no, d.outf, d.outi)
(* the state of a layer under construction: its list of descriptions *)
Unique(ds) == \A a, b \in 1 .. Len(ds) : a # b => ds[a].id # ds[b].id
Indexed(ds) == \A a \in 1 .. Len(ds) : ds[a].idx = a - 1
(* every pair of fields holding the same representations owns equally many weights *)
Owned(ds, i, o) == Cardinality({ a \in 1 .. Len(ds) : ds[a].inf = i /\ ds[a].outf = o })
=============================================================================
