------------------------------- MODULE GenGT --------------------------------
(* Random programs over four tensors: raw indices, split points, operands.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
Draw(S) == RandomElement(S)
Idx == {99} \cup (-5 .. 6)
Item(x) == \* one index
  LET k == Draw(1 .. 10) IN
  IF k <= 3 THEN [k |-> "i", a |-> Draw(-4 .. 3), b |-> 0, c |-> 0]
  ELSE IF k <= 5 THEN [k |-> "s", a |-> 99, b |-> 99, c |-> 99]
  ELSE IF k = 6 THEN [k |-> "e", a |-> 0, b |-> 0, c |-> 0]
  ELSE [k |-> "s", a |-> Draw(Idx), b |-> Draw(Idx), c |-> Draw({99, 1, 2, 3, -1, -2, 99, 0})]
Items(n) == [j \in 1 .. n |-> Item(j)]
Dull == [k |-> "s", a |-> 99, b |-> 99, c |-> 99]
(* half of the indices concern one axis only *)
Some(x) == IF Draw(1 .. 2) = 1 THEN Items(Draw(1 .. 4))
           ELSE LET n == Draw(1 .. 4) IN [j \in 1 .. n |-> IF j = n THEN Item(j) ELSE Dull]
Breaks(x) == LET n == Draw(0 .. 3) IN IF n = 3 /\ Draw(1 .. 2) = 1 THEN <<99>>
  ELSE IF Draw(1 .. 3) = 1 THEN [j \in 1 .. n |-> Draw(-1 .. 6)] ELSE [j \in 1 .. n |-> (IF j = 1 THEN 0 ELSE 1 * j) + Draw(0 .. 1) + (IF j = 1 THEN 1 ELSE 0)]
Kinds == <<"slice", "slice", "slice", "slice", "split", "split", "dsum", "dsum", "add", "sub", "iadd", "isub", "mul", "imul", "imul", "restrict", "to", "ident", "new", "new", "reject">>
Op(k) == [o |-> k, s |-> Draw(1 .. 4), t |-> Draw(1 .. 4), d |-> Draw(1 .. 4),
          it |-> IF k = "slice" THEN Some(0) ELSE <<>>, br |-> IF k = "split" THEN Breaks(0) ELSE <<>>,
          v |-> Draw({2, -1, 3, 0}), f |-> Draw(1 .. 4), ss |-> [j \in 1 .. Draw(1 .. 3) |-> Draw(1 .. 4)]]
Init == hist = <<>>
Next == Len(hist) < MaxLen /\ \E k \in {Kinds[RandomElement(1 .. Len(Kinds))]} : \E op \in {Op(k)} :
  hist' = Append(hist, op) /\ (Len(hist') = MaxLen => PrintT("GEN " \o ToJson([ops |-> hist'])))
=============================================================================
