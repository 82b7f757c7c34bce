------------------------------ MODULE MCFields ------------------------------
(* The field-wise operations of FieldOps are equivariant exactly on the      *)
(* representations said to support them, and act field by field.             *)
EXTENDS FieldOps
CONSTANTS Vals, Cases        \* Vals: entries plus 8
Gr(k, n) == [k |-> k, n |-> n, c |-> FALSE]
Ir(j, k) == [t |-> "irrep", j |-> j, k |-> k]
Reg == [t |-> "reg"]
Quo(a, m) == [t |-> "quo", a |-> a, m |-> m]
Ind(a, m, d) == [t |-> "ind", a |-> a, m |-> m, d |-> d]
SumOf(s) == [t |-> "sum", s |-> s]
Qn(f) == [f |-> f, al2 |-> 2, bias |-> TRUE]
All == <<
  <<Gr("C", 4), "pointwise", Qn("p_relu"), <<Reg>>, <<Reg>>, <<<<0>>>> >>,
  <<Gr("C", 4), "pointwise", Qn("p_elu"), <<Ir(0, 0), Quo(-1, 2)>>, <<Ir(0, 0), Quo(-1, 2)>>, <<<<0>>>> >>,
  <<Gr("D", 2), "pointwise", Qn("p_tanh"), <<Quo(0, 1)>>, <<Quo(0, 1)>>, <<<<0>>>> >>,
  <<Gr("C", 4), "norm", Qn("n_relu"), <<Ir(0, 1), Ir(0, 2)>>, <<Ir(0, 1), Ir(0, 2)>>, <<<<-8>>, <<1>>>> >>,
  <<Gr("D", 4), "norm", Qn("n_sigmoid"), <<Ir(1, 1), Ir(1, 0)>>, <<Ir(1, 1), Ir(1, 0)>>, <<<<-8>>, <<1>>>> >>,
  <<Gr("D", 4), "norm", Qn("squash"), <<Quo(0, 4), Quo(-1, 4)>>, <<Quo(0, 4), Quo(-1, 4)>>, <<<<-8>>, <<1>>>> >>,
  <<Gr("D", 4), "inorm", Qn("n_relu"), <<Ind(-1, 4, Ir(0, 1))>>, <<Ind(-1, 4, Ir(0, 1))>>, <<<<-6>>>> >>,
  <<Gr("C", 4), "inormpool", Qn(""), <<Ind(-1, 2, Ir(0, 1)), Quo(-1, 2)>>, <<Ir(0, 0), Ir(0, 0)>>, <<<<0>>>> >>,
  <<Gr("C", 4), "concat", Qn("c_relu"), <<Ir(0, 1), Ir(0, 2)>>, <<[t |-> "dbl", d |-> Ir(0, 1)], [t |-> "dbl", d |-> Ir(0, 2)]>>, <<<<0>>>> >>,
  <<Gr("D", 4), "concat", Qn("c_tanh"), <<Ir(1, 1), Ir(1, 2)>>, <<[t |-> "dbl", d |-> Ir(1, 1)], [t |-> "dbl", d |-> Ir(1, 2)]>>, <<<<0>>>> >>,
  <<Gr("C", 4), "vector", Qn(""), <<Reg>>, <<Ir(0, 1)>>, <<<<0>>>> >>,
  <<Gr("C", 2), "vector", Qn(""), <<Reg, Reg>>, <<SumOf(<<Ir(0, 1), Ir(0, 1)>>), SumOf(<<Ir(0, 1), Ir(0, 1)>>)>>, <<<<0>>>> >>,
  <<Gr("D", 2), "gpool", Qn(""), <<Reg>>, <<Ir(0, 0)>>, <<<<0>>>> >>,
  <<Gr("C", 4), "normpool", Qn(""), <<Ir(0, 1), Quo(-1, 2)>>, <<Ir(0, 0), Ir(0, 0)>>, <<<<0>>>> >>,
  <<Gr("C", 4), "innerbn", Qn(""), <<Reg>>, <<Reg>>, <<<<20, 9, -3, 5>>>> >>,
  <<Gr("D", 4), "normbn", Qn(""), <<Ir(1, 1), Ir(0, 2)>>, <<Ir(1, 1), Ir(0, 2)>>, <<<<20, 9, 0, 0>>, <<7, 4, 0, 0>>>> >>
>>
(* operations on representations which do not support them *)
Bad == <<
  <<Gr("C", 4), "pointwise", Qn("p_relu"), <<Ir(0, 1)>>, <<Ir(0, 1)>>, <<<<0>>>> >>,
  <<Gr("D", 1), "gpool", Qn(""), <<Ir(1, 0)>>, <<Ir(0, 0)>>, <<<<0>>>> >>,
  <<Gr("C", 4), "innerbn", Qn(""), <<Ir(0, 1)>>, <<Ir(0, 1)>>, <<<<20, 9, -3, 5>>>> >>,
  <<Gr("C", 2), "normpool", Qn(""), <<[t |-> "cob", q |-> <<<<1, 1>>, <<0, 1>>>>, qi |-> <<<<1, -1>>, <<0, 1>>>>, d |-> SumOf(<<Ir(0, 0), Ir(0, 1)>>)]>>, <<Ir(0, 0)>>, <<<<0>>>> >>
>>
VARIABLES c, x
FibMat(G, ds, e) == BlockDiag([f \in 1 .. Len(ds) |-> Mat(G, ds[f], e)])
AppS(A, v) == [i \in 1 .. Len(A) |-> SumSeq([j \in 1 .. Len(v) |-> (A[i][j] * v[j]) \div S])]
Width(G, ds) == SumSeq(SizesOf(G, ds))
Init == /\ c \in Cases
        /\ x \in [1 .. Width(All[c][1], All[c][4]) -> { v - 8 : v \in Vals }]
Next == UNCHANGED <<c, x>>
AsSeq(f) == [i \in 1 .. Len(f) |-> f[i]]
(* y = Op(v), fields in order, field f with parameter f *)
Op(T, v) == LET fx == FieldsOf(SizesOf(T[1], T[4]), v)
            IN Flat([f \in 1 .. Len(T[4]) |-> CHOOSE r \in One(T[1], T[2], T[3], T[6][IF f <= Len(T[6]) THEN f ELSE 1], T[4][f], fx[f]) : TRUE])
AllOps(T, v) == LET fx == FieldsOf(SizesOf(T[1], T[4]), v)
                    R(f) == One(T[1], T[2], T[3], T[6][IF f <= Len(T[6]) THEN f ELSE 1], T[4][f], fx[f])
                IN IF Len(T[4]) = 1 THEN R(1) ELSE { Flat(<<a, b>>) : a \in R(1), b \in R(2) }
MovesWith(T, v) ==
  \A e \in Elems(T[1]) : \A gv \in {TLCEval(AppS(FibMat(T[1], T[4], e), v))} :
    \A y \in AllOps(T, v) : \E gy \in AllOps(T, gv) : Close(AppS(FibMat(T[1], T[5], e), y), gy, 3)
Equivariant == MovesWith(All[c], AsSeq(x))
(* changing one field changes the output of that field only *)
FieldByField ==
  LET T == All[c] sz == SizesOf(T[1], T[4]) off == Offsets(sz)
      szo == [f \in 1 .. Len(sz) |-> OutSize(T[1], T[2], T[4][f])] oo == Offsets(szo)
  IN \A y \in {TLCEval(Op(T, AsSeq(x)))} : \A f \in 1 .. Len(sz) :
     \A y2 \in {TLCEval(Op(T, [i \in 1 .. Len(x) |-> IF i > off[f] /\ i <= off[f] + sz[f] THEN x[i] + 3 ELSE x[i]]))} :
       \A k \in 1 .. Len(y) : (k <= oo[f] \/ k > oo[f] + szo[f]) => y[k] = y2[k]
(* the acceptance condition of the judge accepts the definition *)
Accepted == LET T == All[c] v == AsSeq(x) IN FieldWise(T[1], T[2], T[3], T[6], T[4], <<v>>, <<Op(T, v)>>, 1)
ASSUME \A k \in 1 .. Len(Bad) : \E v \in [1 .. Width(Bad[k][1], Bad[k][4]) -> {-3, 0, 2, 5}] : ~MovesWith(Bad[k], AsSeq(v))
=============================================================================
