-------------------------------- MODULE Rep ---------------------------------
(* Real representations of the groups as fixed-point matrices (scale S).     *)
(* A representation is described by a record (see Mat).                      *)
EXTENDS Group, TLC, Functions, SequencesExt

Sum(f) == FoldFunction(LAMBDA a, b : a + b, 0, f)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* TLC re-evaluates LET definitions and arguments at every use; binding a    *)
(* variable to the element of a singleton evaluates once.                    *)
Only(X) == TLCEval(CHOOSE x \in X : TRUE)

(* ---- matrices: sequences of rows *)
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Eye(n) == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN S ELSE 0]])
Transpose(A0) == Only({ [j \in 1 .. Cols(A) |-> [i \in 1 .. Rows(A) |-> A[i][j]]] : A \in {A0} })
(* x.y/S rounded, without leaving 32 bits for |x|, |y| <= 400000 *)
MulS(x, y) == (x * (y \div 100) + (x * (y % 100) + 50) \div 100 + 50) \div 100
(* product of a scale-S matrix with a scale-T matrix is a scale-T matrix     *)
MulAB(A0, B0) ==
  Only({ [i \in 1 .. Rows(A) |-> [j \in 1 .. Cols(B) |->
     Sum([k \in 1 .. Cols(A) |->
            IF A[i][k] = 0 \/ B[k][j] = 0 THEN 0
            ELSE IF A[i][k] = S THEN B[k][j]
            ELSE MulS(A[i][k], B[k][j])])]] : A \in {A0}, B \in {B0} })
(* the same with the scale-S matrix on the right *)
MulAB2(B0, A0) ==
  Only({ [i \in 1 .. Rows(B) |-> [j \in 1 .. Cols(A) |->
     Sum([k \in 1 .. Cols(B) |->
            IF A[k][j] = 0 \/ B[i][k] = 0 THEN 0
            ELSE IF A[k][j] = S THEN B[i][k]
            ELSE MulS(A[k][j], B[i][k])])]] : A \in {A0}, B \in {B0} })
MaxAbs(A) == FoldLeft(LAMBDA m, row : FoldLeft(LAMBDA x, y : IF Abs(y) > x THEN Abs(y) ELSE x, m, row), 0, A)
(* A integer valued (scale 1) *)
MulInt(A0, B0) ==
  Only({ [i \in 1 .. Rows(A) |-> [j \in 1 .. Cols(B) |->
     Sum([k \in 1 .. Cols(A) |-> A[i][k] * B[k][j]])]] : A \in {A0}, B \in {B0} })
NearMat(A0, B0, tol) ==
  \A A \in {TLCEval(A0)}, B \in {TLCEval(B0)} :
  /\ Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
  /\ \A i \in 1 .. Rows(A) : \A j \in 1 .. Cols(A) : Near(A[i][j], B[i][j], tol)
TraceOf(A) == Sum([i \in 1 .. Rows(A) |-> A[i][i]])
SquareOf(A, n) == Len(A) = n /\ \A i \in 1 .. n : Len(A[i]) = n

Offsets(sizes) ==    \* start (0-based) of each block
  TLCEval([i \in 1 .. Len(sizes) |-> SumSeq(SubSeq(sizes, 1, i - 1))])
BlockOf(sizes, p) == \* block containing position p
  LET off == Offsets(sizes) IN CHOOSE b \in 1 .. Len(sizes) : off[b] < p /\ p <= off[b] + sizes[b]
BlockDiagOf(Ms) ==
  LET sizes == [i \in 1 .. Len(Ms) |-> Rows(Ms[i])]
      n == SumSeq(sizes)
  IN Only({ [i \in 1 .. n |-> [j \in 1 .. n |->
        IF blk[i] = blk[j] THEN Ms[blk[i]][i - off[blk[i]]][j - off[blk[j]]] ELSE 0]]
        : off \in {TLCEval(Offsets(sizes))}, blk \in {TLCEval([p \in 1 .. n |-> BlockOf(sizes, p)])} })
BlockDiag(Ms0) == Only({ BlockDiagOf(Ms) : Ms \in {TLCEval(Ms0)} })

(* ---- irreducible representations.  <<j, k>>: reflection, rotation frequency *)
OneDim(G, k) == k = 0 \/ (~G.c /\ 2 * k = G.n)
IrrepDim(G, k) == IF OneDim(G, k) THEN 1 ELSE 2
(* the dimension of the endomorphism algebra: 2 for complex type *)
EndoDim(G, k) == IF ~Flip(G) /\ IrrepDim(G, k) = 2 THEN 2 ELSE 1
Angle(G, r) == r * (Turn \div G.n)
IrrepMat(G, j, k, e) ==
  LET u == k * Angle(G, e[2])
      c == Cos(u)
      s == Sin(u)
  IN IF OneDim(G, k)
     THEN IF j = 1 /\ e[1] = 1 THEN << <<-c>> >> ELSE << <<c>> >>
     ELSE IF e[1] = 1 THEN << <<c, s>>, <<s, -c>> >>
     ELSE << <<c, -s>>, <<s, c>> >>
(* all irreps of a finite group *)
Irreps(G) ==
  IF ~Flip(G) THEN { <<0, k>> : k \in 0 .. G.n \div 2 }
  ELSE {<<0, 0>>} \cup { <<1, k>> : k \in 0 .. G.n \div 2 }
       \cup (IF G.n % 2 = 0 THEN {<<0, G.n \div 2>>} ELSE {})
IrrepsUpTo(G, f) ==   \* continuous groups
  IF ~Flip(G) THEN { <<0, k>> : k \in 0 .. f }
  ELSE {<<0, 0>>} \cup { <<1, k>> : k \in 0 .. f }

RegMat(G, e) ==
  LET es == ElemSeq(G) n == Order(G)
  IN TLCEval([i \in 1 .. n |-> LET src == IndexOf(G, Mul(G, Inv(G, e), es[i]))
                       IN [j \in 1 .. n |-> IF j = src THEN S ELSE 0]])

(* ---- general representations.  d is one of
     [t |-> "irrep", j, k]          irreducible
     [t |-> "reg"]                  regular
     [t |-> "quo", a, m]            quotient by the subgroup <<a, m>>
     [t |-> "ind", a, m, d]         induced from a representation of <<a, m>>
     [t |-> "sum", s]               direct sum of the sequence s
     [t |-> "cob", q, qi, d]        q d(g) qi with integer matrices, qi = q^-1
     [t |-> "res", g, a, m, d]      restriction of the representation d of g
     [t |-> "dbl", d]               every channel split into its positive and
                                    negative part (d a signed permutation)
     [t |-> "lit", m]               literal matrices, one per canonical index *)
RECURSIVE Size(_, _)
Size(G, d) ==
  CASE d.t = "irrep" -> IrrepDim(G, d.k)
    [] d.t = "reg" -> Order(G)
    [] d.t = "quo" -> Order(G) \div Order(SubGroup(G, <<d.a, d.m>>))
    [] d.t = "ind" /\ G.c -> 2 * Size(SubGroup(G, <<d.a, d.m>>), d.d)
    [] d.t = "ind" /\ ~G.c -> (Order(G) \div Order(SubGroup(G, <<d.a, d.m>>)))
                        * Size(SubGroup(G, <<d.a, d.m>>), d.d)
    [] d.t = "sum" -> SumSeq([i \in 1 .. Len(d.s) |-> Size(G, d.s[i])])
    [] d.t = "cob" -> Len(d.q)
    [] d.t = "res" -> Size(d.g, d.d)
    [] d.t = "dbl" -> 2 * Size(G, d.d)
    [] d.t = "lit" -> Len(d.m[1])

RECURSIVE Mat(_, _, _)
(* matrix of the representation induced by sub (of the subgroup id) at e     *)
IndMat(G, id, sub, e, reps, sz) ==
  LET H == SubGroup(G, id)
      n == Len(reps)
      \* for coset c: target coset and inner subgroup element
      Tgts == [c \in 1 .. n |-> PosIn(reps, CosetRep(G, id, Mul(G, e, reps[c])))]
      Inner(tgt) == [c \in 1 .. n |->
          Mat(H, sub, Project(G, id, Mul(G, Inv(G, reps[tgt[c]]), Mul(G, e, reps[c]))))]
  IN Only({ Only({ [i \in 1 .. n * sz |-> [j \in 1 .. n * sz |->
               LET ci == (i - 1) \div sz + 1
                   cj == (j - 1) \div sz + 1
               IN IF tgt[cj] = ci
                  THEN inner[cj][((i - 1) % sz) + 1][((j - 1) % sz) + 1] ELSE 0]]
             : inner \in {TLCEval(Inner(tgt))} }) : tgt \in {TLCEval(Tgts)} })
Double(A) ==
  TLCEval([i \in 1 .. 2 * Rows(A) |-> [j \in 1 .. 2 * Rows(A) |->
     LET v == A[((i - 1) \div 2) + 1][((j - 1) \div 2) + 1]
     IN IF (v > 0) = (i % 2 = j % 2) THEN Abs(v) ELSE 0]])
Mat(G, d, e) ==
  CASE d.t = "irrep" -> IrrepMat(G, d.j, d.k, e)
    [] d.t = "reg" -> RegMat(G, e)
    [] d.t = "sum" -> BlockDiag([i \in 1 .. Len(d.s) |-> Mat(G, d.s[i], e)])
    [] d.t = "cob" -> MulInt(d.q, Transpose(MulInt(Transpose(d.qi), Transpose(Mat(G, d.d, e)))))
    [] d.t = "res" -> Mat(d.g, d.d, Embed(d.g, <<d.a, d.m>>, e))
    [] d.t = "dbl" -> Only({ Double(A) : A \in {TLCEval(Mat(G, d.d, e))} })
    [] d.t = "lit" -> d.m[IndexOf(G, e)]
    [] d.t \in {"quo", "ind"} ->
         LET id == <<d.a, d.m>>
             H == SubGroup(G, id)
             triv == [t |-> "irrep", j |-> 0, k |-> 0]
             sub == IF d.t = "quo" THEN triv ELSE d.d
         IN Only({ IndMat(G, id, sub, e, reps, Size(H, sub)) : reps \in {TLCEval(CosetReps(G, id))} })

Char(G, d, e) == TraceOf(Mat(G, d, e))
(* multiplicity of irrep <<j,k>> in d, from characters (rounded) *)
Multiplicity(G, chars, j, k) ==   \* chars: canonical index -> character (scale S)
  LET es == ElemSeq(G)
      tot == Sum([i \in 1 .. Order(G) |->
                   (chars[i] * (TraceOf(IrrepMat(G, j, k, Inv(G, es[i]))) \div 10)) \div S])
      den == Order(G) * EndoDim(G, k) * (S \div 10)
  IN (tot + den \div 2) \div den
=============================================================================
