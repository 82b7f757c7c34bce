------------------------------ MODULE MCCache -------------------------------
(* The design of the library's memory of bases and sampled filters.  A       *)
(* request carries arguments; what it should return is a function of the     *)
(* arguments alone.  The library looks the answer up under a key computed    *)
(* from the arguments; several layers may then refer to one stored tensor.   *)
(* A layer can be converted (number type, device), which replaces the        *)
(* tensors that the layer refers to.  Fault = "none" is the design; the other *)
(* values are designs which do not satisfy the invariants (checked by        *)
(* MCCacheBad*.cfg during development): a key that forgets an argument, and  *)
(* layers that share the container of the tensors.                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vals, Fault, MaxLayers, Kinds
VARIABLES store, layers
Args == [rep : Vals, opt : Vals]
Value(a) == <<a.rep, a.opt>>
Key(a) == IF Fault = "key" THEN <<a.rep>> ELSE <<a.rep, a.opt>>
(* a layer: arguments, kind it was converted to, reference (key) and whether *)
(* it holds its own container                                                *)
Init == store = <<>> /\ layers = <<>>
Lookup(k) == { i \in 1 .. Len(store) : store[i].key = k }
Request(a) ==
  /\ Len(layers) < MaxLayers
  /\ LET hit == Lookup(Key(a)) IN
     IF hit # {} THEN
       /\ store' = store
       /\ \E c \in hit : layers' = Append(layers, [args |-> a, want |-> "f32", cell |-> c, own |-> store[c].val])
     ELSE
       /\ store' = Append(store, [key |-> Key(a), val |-> [v |-> Value(a), t |-> "f32"]])
       /\ layers' = Append(layers, [args |-> a, want |-> "f32", cell |-> Len(store) + 1, own |-> [v |-> Value(a), t |-> "f32"]])
Convert(l, t) ==
  /\ layers' = [layers EXCEPT ![l].want = t, ![l].own.t = t]
  /\ store' = IF Fault = "shared" THEN [store EXCEPT ![layers[l].cell].val.t = t] ELSE store
Next == (\E a \in Args : Request(a)) \/ (\E l \in 1 .. Len(layers) : \E t \in Kinds : Convert(l, t))
Tensor(l) == IF Fault = "shared" THEN store[layers[l].cell].val ELSE layers[l].own
DependsOnlyOnArguments == \A l \in 1 .. Len(layers) : Tensor(l).v = Value(layers[l].args)
ConversionIsLocal == \A l \in 1 .. Len(layers) : Tensor(l).t = layers[l].want
StoreNeverConverted == \A c \in 1 .. Len(store) : store[c].val.t = "f32"
=============================================================================
