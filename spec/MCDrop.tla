------------------------------- MODULE MCDrop -------------------------------
(* Histories of dropout layers over two tensors: whatever is drawn, units    *)
(* stay whole, evaluation changes nothing, passes leave other tensors alone, *)
(* and the possible results move with the fields.                            *)
EXTENDS Drop, FiniteSets, TLC
CONSTANTS Kind, Inplace, MaxSteps
VARIABLES mode, mem, org, n, last
Sizes == <<2, 1, 2>>
PC == 50
Original == << 3, -5, 7, 11, 13 >>
(* all results of a pass *)
Results(x) == IF Kind = "field"
  THEN { [c \in 1 .. 5 |-> IF (CHOOSE f \in 1 .. 3 : c \in Units(Kind, Sizes)[f]) \in K THEN 2 * x[c] ELSE 0] : K \in SUBSET (1 .. 3) }
  ELSE { [c \in 1 .. 5 |-> IF c \in K THEN 2 * x[c] ELSE 0] : K \in SUBSET (1 .. 5) }
Init == mode = "train" /\ mem = [s \in 1 .. 2 |-> Original] /\ org = mem /\ n = 0 /\ last = 0
Next == n < MaxSteps /\ n' = n + 1 /\
  \/ \E m \in {"train", "eval"} : mode' = m /\ last' = 0 /\ UNCHANGED <<mem, org>>
  \/ \E s \in 1 .. 2 : \E y \in (IF mode = "eval" THEN {mem[s]} ELSE Results(mem[s])) :
       /\ mem' = [mem EXCEPT ![s] = AfterPass(Inplace, mode, <<mem[s]>>, <<y>>)[1]]
       /\ last' = s /\ UNCHANGED <<mode, org>>
(* the relation and the enumeration agree *)
RelationExact == \A s \in 1 .. 2 : \A y \in Results(mem[s]) : DropRel(Kind, Sizes, PC, mem[s], y, 0)
(* every unit of a tensor is a power of two times what it was, or zero, as a whole *)
Whole == \A s \in 1 .. 2 : \A k \in DOMAIN Units(Kind, Sizes) :
  \E f \in {0, 1, 2, 4, 8, 16, 32} : \A c \in Units(Kind, Sizes)[k] : mem[s][c] = f * org[s][c]
NotInplaceIntact == ~Inplace => mem = org
OnlyTarget == [][ \A s \in 1 .. 2 : (mem'[s] # mem[s]) => (last' = s /\ mode = "train" /\ Inplace) ]_<<mode, mem, org, n, last>>
(* an action of the group inside the fields maps the results of x onto those of its image *)
Acts == { <<2, 1, 3, 5, 4>>, <<2, 1, 3, 4, 5>> }
Move(a, x) == [c \in 1 .. 5 |-> x[a[c]]]
ResultsMove == \A s \in 1 .. 2 : \A a \in Acts : { Move(a, y) : y \in Results(mem[s]) } = Results(Move(a, mem[s]))
=============================================================================
