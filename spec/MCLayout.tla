------------------------------ MODULE MCLayout ------------------------------
(* All small field types and all orders in which the weights of all pairs of *)
(* irreps can be listed: numbering is a bijection between places and         *)
(* positions, and a complete, well placed list names each pair of irreps     *)
(* equally often, so that the lookup by name and by index agree.             *)
EXTENDS Layout
CONSTANTS MaxFields, MaxIrreps
VARIABLES ni, no, ds
Types == UNION { [1 .. n -> 1 .. MaxIrreps] : n \in 1 .. MaxFields }
Entry(p, q, k) == [id |-> <<p, q>>, idx |-> k, inf |-> PlaceOf(ni, p)[1], ini |-> PlaceOf(ni, p)[2], inp |-> p,
                   outf |-> PlaceOf(no, q)[1], outi |-> PlaceOf(no, q)[2], outp |-> q]
Init == ni \in Types /\ no \in Types /\ ds = <<>>
Next == /\ \E p \in 0 .. Total(ni) - 1, q \in 0 .. Total(no) - 1 :
             /\ \A a \in 1 .. Len(ds) : ds[a].id # <<p, q>>
             /\ ds' = Append(ds, Entry(p, q, Len(ds)))
        /\ UNCHANGED <<ni, no>>
Small == Total(ni) * Total(no) <= 6
Numbered == /\ { Position(ni, x[1], x[2]) : x \in Places(ni) } = 0 .. Total(ni) - 1
            /\ Cardinality(Places(ni)) = Total(ni)
Placed == Unique(ds) /\ Indexed(ds) /\ \A a \in 1 .. Len(ds) : WellPlaced(ni, no, ds[a])
Complete == Len(ds) = Total(ni) * Total(no) =>
  \A i \in 0 .. Len(ni) - 1, o \in 0 .. Len(no) - 1 : Owned(ds, i, o) = ni[i + 1] * no[o + 1]
Lookup == \A a \in 1 .. Len(ds) : (CHOOSE b \in 1 .. Len(ds) : ds[b].id = ds[a].id) = a
=============================================================================
