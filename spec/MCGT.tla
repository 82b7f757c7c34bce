-------------------------------- MODULE MCGT --------------------------------
(* The tensor model itself: index arithmetic against a direct definition,    *)
(* laws of slicing, splitting and summing, and a machine of two or three     *)
(* tensors with views in which only documented cells ever change.            *)
EXTENDS GT, TLC
CONSTANTS MaxN, MaxSteps, MaxFields
VARIABLES mem, n, next, last
Vals == {None} \cup (-(MaxN + 2) .. (MaxN + 2))
Steps == {None, 1, 2, 3, -1, -2, -3, 0}
(* the members of a slice, defined by membership rather than by counting *)
Member(a, b, c0, len, i) ==
  LET c == IF c0 = None THEN 1 ELSE c0
      s == IF a = None THEN (IF c > 0 THEN 0 ELSE len - 1) ELSE IF a < 0 THEN a + len ELSE a
      e == IF b = None THEN (IF c > 0 THEN len ELSE -1) ELSE IF b < 0 THEN b + len ELSE b
      s2 == IF c > 0 THEN (IF s < 0 THEN 0 ELSE s) ELSE (IF s > len - 1 THEN len - 1 ELSE s)
  IN 0 <= i /\ i < len /\ (IF c > 0 THEN s2 <= i /\ i < e /\ (i - s2) % c = 0 ELSE e < i /\ i <= s2 /\ (s2 - i) % (-c) = 0)
ASSUME \A len \in 0 .. MaxN : \A a \in Vals, b \in Vals, c \in Steps :
  \A q \in {PySlice(a, b, c, len)} :
  IF c = 0 THEN q = RejectI ELSE
  /\ { q[k] : k \in 1 .. Len(q) } = { i \in 0 .. len - 1 : Member(a, b, c, len, i) }
  /\ \A k \in 1 .. Len(q) - 1 : q[k + 1] - q[k] = (IF c = None THEN 1 ELSE c)
Sz == [r \in 1 .. 2 |-> r]
T0(fs, b, h) == LET sizes == [k \in 1 .. Len(fs) |-> Sz[fs[k]]]
                    C == Len(Cat([k \in 1 .. Len(fs) |-> Rep(0, sizes[k])])) IN
  FromFlat(1, fs, sizes, 4, 32, 0, b, h, 1, [q \in 1 .. b |-> [c \in 1 .. C |-> [r \in 1 .. h |-> <<q * 100 + c * 10 + r>>]]])
Lists(m) == UNION { [1 .. k -> 1 .. 2] : k \in 1 .. m }
Sl(a, b, c) == [k |-> "s", a |-> a, b |-> b, c |-> c]
In(a) == [k |-> "i", a |-> a, b |-> 0, c |-> 0]
Incr(L) == { s \in UNION { [1 .. k -> 1 .. L - 1] : k \in 0 .. L - 1 } : \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1] }
(* cutting and joining are inverse to each other, and a cut is a slice *)
ASSUME \A fs \in Lists(MaxFields) : \A T \in {TLCEval(T0(fs, 2, 1))} :
  /\ \A br \in Incr(Len(fs)) : \A ps \in {TLCEval(SplitT(T, br))} :
       /\ SumT(ps) = T
       /\ \A k \in 1 .. Len(ps) : ps[k] = SliceT(T, <<Full, Sl(IF k = 1 THEN 0 ELSE br[k - 1], IF k > Len(br) THEN None ELSE br[k], None)>>)
  /\ SumT(SplitT(T, <<None>>)) = T
  /\ SplitT(T, <<0>>) = <<>> /\ SplitT(T, <<Len(fs)>>) = <<>> /\ SplitT(T, <<2, 1>>) = <<>>
  (* one field at a time; reversing twice; the ellipsis *)
  /\ \A k \in -Len(fs) .. Len(fs) - 1 : SliceT(T, <<Full, In(k)>>) = SliceT(T, <<Full, Sl(k, IF k = -1 THEN None ELSE k + 1, None)>>)
  /\ SliceT(T, <<Full, In(Len(fs))>>) = Reject /\ SliceT(T, <<Full, In(-Len(fs) - 1)>>) = Reject
  /\ \A R \in {SliceT(T, <<Full, Sl(None, None, -1)>>)} : SliceT(R, <<Full, Sl(None, None, -1)>>) = T
  /\ SliceT(T, <<[k |-> "e", a |-> 0, b |-> 0, c |-> 0], In(0)>>) = SliceT(T, <<Full, Full, Full, In(0)>>)
  /\ SubT(AddT(T, T), T) = T /\ MulT(T, 2) = AddT(T, T) /\ Flat(Fresh(T, 500)) = Flat(T)
(* indices on different axes commute *)
ASSUME \A T \in {TLCEval(T0(<<1, 2, 1>>, 2, 2))} : \A p \in 0 .. 1 : \A a \in {None, 0, 1, -1}, b \in {None, 1, 2, 3}, c \in {None, 1, 2, -1} :
  \A S \in {SliceT(T, <<In(p), Sl(a, b, c)>>)}, U \in {SliceT(T, <<In(p)>>)} :
    S = (IF SliceT(U, <<Full, Sl(a, b, c)>>) = Reject THEN Reject ELSE SliceT(U, <<Full, Sl(a, b, c)>>))
(* the machine *)
Slots == 1 .. 2
Init == mem = [s \in Slots |-> Fresh(T0(<<1, 2>>, 1, 2), s * 100)] /\ n = 0 /\ next = 300 /\ last = <<"init", 0>>
Put(s, T, copied) == mem' = [mem EXCEPT ![s] = IF copied THEN Fresh(T, next) ELSE T] /\ next' = next + 100
Items == { <<Sl(a, b, c), Sl(d, e, f)>> : a \in {0, 1}, b \in {None, 1}, c \in {None}, d \in {0, 1}, e \in {None}, f \in {None, -1} }
         \cup { <<Full, Full, Sl(a, None, None)>> : a \in 0 .. 1 }
Write(s, T) == LET cells == Cells(T) ad == Addrs(T) IN
  mem' = [u \in Slots |-> IF u = s THEN T ELSE Follow(mem[u], cells, ad)] /\ UNCHANGED next
Next == n < MaxSteps /\ n' = n + 1 /\
  \/ \E s \in Slots, d \in Slots, it \in Items : \E R \in {SliceT(mem[s], it)} :
       R # Reject /\ R.b > 0 /\ Put(d, R, Copies(it, 4)) /\ last' = <<"put", d>>
  \/ \E s \in Slots, d \in Slots, br \in {<<1>>, <<None>>} : \E R \in {SplitT(mem[s], br)} :
       R # <<>> /\ (\E k \in 1 .. Len(R) : Put(d, R[k], FALSE)) /\ last' = <<"put", d>>
  \/ \E s \in Slots, d \in Slots : \E R \in {SumT(<<mem[s], mem[d]>>)} :
       R # Reject /\ Len(R.fs) <= 3 /\ Put(d, R, TRUE) /\ last' = <<"put", d>>
  \/ \E s \in Slots : Write(s, MulT(mem[s], 2)) /\ last' = <<"write", s>>
  \/ \E s \in Slots, d \in Slots : SameGrid(mem[s], mem[d]) /\ AddT(mem[s], mem[d]) # Reject /\ Write(s, AddT(mem[s], mem[d])) /\ last' = <<"write", s>>
(* lengths agree with the fields, everywhere *)
WellFormed == \A s \in Slots : \A T \in {mem[s]} :
  /\ Len(T.x) = T.b /\ \A q \in 1 .. T.b : Len(T.x[q]) = Len(T.fs) /\ \A k \in 1 .. Len(T.fs) : Len(T.x[q][k]) = Sz[T.fs[k]]
(* cells at one address always hold one value *)
OneStore == \A s, u \in Slots : \A c \in Cells(mem[s]), d \in Cells(mem[u]) : c[1] = d[1] => c[2] = d[2]
(* a tensor keeps its cells unless it was the target or shares an address with it *)
OnlyShared == [][ \A u \in Slots : (mem'[u] # mem[u] /\ last'[2] # u) =>
     (last'[1] = "write" /\ Addrs(mem[u]) \cap Addrs(mem'[last'[2]]) # {}) ]_<<mem, n, next, last>>
View == <<mem, n>>
=============================================================================
