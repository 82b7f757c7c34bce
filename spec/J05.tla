-------------------------------- MODULE J05 ---------------------------------
(* P05: block permutation structure of regular, quotient and induced         *)
(* representations, independently of how the library orders the cosets       *)
(* (except that the identity's coset comes first).                           *)
(* e.rows[k] = <<target block of each block, the blocks, largest entry       *)
(* outside of them>> of the matrix at the element e.els[k].                  *)
EXTENDS JBase, Rep
VARIABLES i, st
Tol == 30
At(e, x) == CHOOSE k \in 1 .. Len(e.els) : e.els[k] = x
Good(e) ==
  LET G == e.g
      id == e.id
      H == SubGroup(G, id)
      n == IF G.c THEN 2 ELSE Order(G) \div Order(H)
      N == Len(e.els)
      T(k) == e.rows[k][1]
      B(k) == e.rows[k][2]
      \* the identity's coset is the first block; block c belongs to the coset
      \* moved there from the first block; its representative acts trivially
      Rep1(c) == CHOOSE k \in 1 .. N : T(k)[1] = c /\ NearMat(B(k)[1], Eye(e.sz), Tol)
  IN IF Len(e.rows) # N \/ e.size # n * e.sz \/ e.sz # Size(H, e.d) THEN {"size-is-index-times-size"}
     ELSE IF \E k \in 1 .. N : { T(k)[c] : c \in 1 .. n } # 1 .. n THEN {"blocks-are-permuted"}
     ELSE IF \E k \in 1 .. N : e.rows[k][3] > Tol THEN {"nothing-outside-the-blocks"}
     ELSE IF \E c \in 1 .. n : ~\E k \in 1 .. N : T(k)[1] = c THEN {"transitive-on-cosets"}
     ELSE IF \E c \in 1 .. n : ~\E k \in 1 .. N : T(k)[1] = c /\ NearMat(B(k)[1], Eye(e.sz), Tol) THEN {"block-starts-at-identity"}
     ELSE UNION { Violated(<<
       <<"first-block-is-the-identity-coset",
          \A k \in 1 .. N : (T(k)[1] = 1) = (Project(G, id, e.els[k]) # <<>>)>>,
       <<"cosets-permuted-by-left-multiplication",
          \A k \in 1 .. N : \A c \in 1 .. n :
             LET y == Mul(G, e.els[k], e.els[reps[c]]) IN
             Project(G, id, Mul(G, Inv(G, e.els[reps[T(k)[c]]]), y)) # <<>> >>,
       <<"blocks-act-by-the-subgroup-representation",
          \A k \in 1 .. N : \A c \in 1 .. n :
             LET y == Mul(G, e.els[k], e.els[reps[c]])
                 hh == Project(G, id, Mul(G, Inv(G, e.els[reps[T(k)[c]]]), y))
             IN hh # <<>> => NearMat(B(k)[c], Mat(H, e.d, hh), Tol)>>,
       <<"induced-character",
          \A k \in 1 .. N :
             Near(e.chars[k],
               SumSeq([c \in 1 .. n |->
                 LET hh == Project(G, id, Mul(G, Inv(G, e.els[reps[c]]), Mul(G, e.els[k], e.els[reps[c]])))
                 IN IF hh = <<>> THEN 0 ELSE TraceOf(Mat(H, e.d, hh))]), Tol + 4 * e.size)>> >>)
       : reps \in {TLCEval([c \in 1 .. n |-> Rep1(c)])} }
Failing(e, s) ==
  CASE e.op = "coset" -> Good(e)
    [] e.op = "again" -> Violated(<< <<"repeated-request-equal", e.same>> >>)
    [] e.op = "exc" -> {"raised"}
    [] OTHER -> {"unknown-event"}
Step(s, e) == s
JInit == i = 1 /\ st = 0
JNext == i <= Len(Tr) /\ i' = i + 1 /\ st' = Step(st, Tr[i])
JCheck == i <= Len(Tr) => Report(i, Failing(Tr[i], st))
=============================================================================
