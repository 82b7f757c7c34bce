-------------------------------- MODULE MCFT --------------------------------
(* Laws of the list algebra, and a machine of two field types in which the   *)
(* fields never come from nowhere and every operation leaves its operands.   *)
EXTENDS FT, TLC
CONSTANTS MaxLen, MaxSteps
VARIABLES mem, n
SZ == <<1, 2, 2, 3>>
Lists(m) == UNION { [1 .. k -> 1 .. 4] : k \in 1 .. m }
Perms(m) == { p \in [1 .. m -> 0 .. m - 1] : \A a, b \in 1 .. m : p[a] = p[b] => a = b }
Count(s, v) == Cardinality({ k \in 1 .. Len(s) : s[k] = v })
ASSUME \A fs \in Lists(MaxLen) :
  \A p \in {TLCEval(SortPerm(fs, SZ))}, st \in {Starts(fs, SZ)}, en \in {Ends(fs, SZ)} :
  (* sorting is a stable permutation, idempotent *)
  /\ p \in Perms(Len(fs))
  /\ \A a, b \in 1 .. Len(fs) : a < b => SZ[fs[p[a] + 1]] < SZ[fs[p[b] + 1]] \/ (SZ[fs[p[a] + 1]] = SZ[fs[p[b] + 1]] /\ p[a] < p[b])
  /\ Sorted(Sorted(fs, SZ), SZ) = Sorted(fs, SZ) /\ SizeOf(Sorted(fs, SZ), SZ) = SizeOf(fs, SZ)
  (* offsets tile the channels *)
  /\ st[1] = 0 /\ en[Len(fs)] = SizeOf(fs, SZ) /\ \A k \in 1 .. Len(fs) - 1 : en[k] = st[k + 1]
  /\ \A k \in 1 .. Len(fs) : en[k] - st[k] = SZ[fs[k]]
  (* groups partition the fields in order *)
  /\ \A lb \in [1 .. Len(fs) -> {"a", "b"}] :
       /\ \A v \in 1 .. 4 : Count(Grouped(fs, lb, "a"), v) + Count(Grouped(fs, lb, "b"), v) = Count(fs, v)
       /\ \A q \in {Positions(lb, "a")} : \A k \in 1 .. Len(q) - 1 : q[k] < q[k + 1]
ASSUME \A fs \in Lists(3) : \A p \in Perms(Len(fs)), q \in Perms(Len(fs)) :
  Select(Select(fs, p), q) = Select(fs, [k \in 1 .. Len(q) |-> p[q[k] + 1]])
ASSUME \A fs \in Lists(3) : \A B \in {TLCEval(BlockDiag([k \in 1 .. Len(fs) |-> [r \in 1 .. SZ[fs[k]] |-> [c \in 1 .. SZ[fs[k]] |-> 100 * k + 10 * r + c]]], 0))} :
  /\ Len(B) = SizeOf(fs, SZ)
  /\ \A k \in 1 .. Len(fs) : \A r, c \in 1 .. SZ[fs[k]] : B[Starts(fs, SZ)[k] + r][Starts(fs, SZ)[k] + c] = 100 * k + 10 * r + c
  /\ Cardinality({ <<r, c>> \in (1 .. Len(B)) \X (1 .. Len(B)) : B[r][c] # 0 }) = Total([k \in 1 .. Len(fs) |-> SZ[fs[k]] * SZ[fs[k]]])
Slots == 1 .. 2
Init == mem = <<[sp |-> 1, fs |-> <<4, 1, 2>>], [sp |-> 1, fs |-> <<3, 2>>]>> /\ n = 0
Put(d, T) == mem' = [mem EXCEPT ![d] = T] /\ n' = n + 1
Next == n < MaxSteps /\
  \/ \E s, d \in Slots : \E ix \in UNION { [1 .. k -> 0 .. 3] : k \in 1 .. 2 } : CanSelect(mem[s].fs, ix) /\ Put(d, [mem[s] EXCEPT !.fs = Select(mem[s].fs, ix)])
  \/ \E s, d \in Slots : Put(d, [mem[s] EXCEPT !.fs = Sorted(mem[s].fs, SZ)])
  \/ \E s, t, d \in Slots : Len(mem[s].fs) + Len(mem[t].fs) <= 6 /\ Put(d, AddFT(mem[s], mem[t]))
  \/ \E s, d \in Slots : \E lb \in [1 .. Len(mem[s].fs) -> {"a", "b"}] : \E l \in {"a", "b"} :
        Positions(lb, l) # <<>> /\ Put(d, [mem[s] EXCEPT !.fs = Grouped(mem[s].fs, lb, l)])
OfTheSpace == \A s \in Slots : mem[s].sp = 1 /\ mem[s].fs # <<>> /\ \A k \in 1 .. Len(mem[s].fs) : mem[s].fs[k] \in 1 .. 4
Tiles == \A s \in Slots : Ends(mem[s].fs, SZ)[Len(mem[s].fs)] = SizeOf(mem[s].fs, SZ)
=============================================================================
