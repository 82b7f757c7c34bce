--------------------------------- MODULE FT ---------------------------------
(* Field types as ordered lists: [sp, fs] with fs a sequence of              *)
(* representation tokens; sz[token] their sizes.                             *)
EXTENDS Integers, Sequences, FiniteSets
NoType == [sp |-> 0, fs |-> <<>>]
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Sizes(fs, sz) == [k \in 1 .. Len(fs) |-> sz[fs[k]]]
SizeOf(fs, sz) == Total(Sizes(fs, sz))
Ends(fs, sz) == [k \in 1 .. Len(fs) |-> Total(SubSeq(Sizes(fs, sz), 1, k))]
Starts(fs, sz) == [k \in 1 .. Len(fs) |-> Total(SubSeq(Sizes(fs, sz), 1, k - 1))]
(* selection by a non-empty list of positions 0 .. N-1 *)
CanSelect(fs, ix) == ix # <<>> /\ \A k \in 1 .. Len(ix) : 0 <= ix[k] /\ ix[k] < Len(fs)
Select(fs, ix) == [k \in 1 .. Len(ix) |-> fs[ix[k] + 1]]
(* stable order by size: the fields of each size in turn *)
SortPerm(fs, sz) ==
  LET s == Sizes(fs, sz)
      At(p) == Cardinality({ q \in 1 .. Len(fs) : s[q] < s[p] \/ (s[q] = s[p] /\ q < p) }) + 1
  IN [k \in 1 .. Len(fs) |-> (CHOOSE p \in 1 .. Len(fs) : At(p) = k) - 1]
Sorted(fs, sz) == Select(fs, SortPerm(fs, sz))
(* the fields carrying a label, in order *)
Positions(labels, l) == SelectSeq([k \in 1 .. Len(labels) |-> k - 1], LAMBDA p : labels[p + 1] = l)
Grouped(fs, labels, l) == Select(fs, Positions(labels, l))
AddFT(A, B) == IF A.sp # B.sp THEN NoType ELSE [A EXCEPT !.fs = A.fs \o B.fs]
(* a matrix given by the blocks of the fields *)
BlockDiag(blocks, m) ==
  LET n == [k \in 1 .. Len(blocks) |-> Len(blocks[k])]
      off == [k \in 1 .. Len(blocks) |-> Total(SubSeq(n, 1, k - 1))]
      N == Total(n)
      Of == [r \in 1 .. N |-> CHOOSE k \in 1 .. Len(blocks) : off[k] < r /\ r <= off[k] + n[k]]
  IN [r \in 1 .. N |-> [c \in 1 .. N |-> IF Of[r] = Of[c] THEN blocks[Of[r]][r - off[Of[r]]][c - off[Of[r]]] ELSE 0]]
Near(A, B, tol) == Len(A) = Len(B) /\ \A r \in 1 .. Len(A) : Len(A[r]) = Len(B[r]) /\
  \A c \in 1 .. Len(A[r]) : A[r][c] - B[r][c] <= tol /\ B[r][c] - A[r][c] <= tol
=============================================================================
