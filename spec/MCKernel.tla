------------------------------ MODULE MCKernel ------------------------------
(* Growing the bandwidth one frequency at a time over all spaces and pairs   *)
(* of irreps of the bound: the frequency lists give exactly the dimension    *)
(* that the characters demand.                                               *)
EXTENDS Kernel
CONSTANTS Ns, Axes, MaxF
VARIABLES sp, i, o, F
vars == <<sp, i, o, F>>
Grp(k, n) == [k |-> k, n |-> n, c |-> FALSE]
Sps == { [s |-> "triv", g |-> Grp("C", 1), ax2 |-> 0] }
       \cup { [s |-> "flip", g |-> Grp("C", 2), ax2 |-> a] : a \in Axes }
       \cup { [s |-> "rot", g |-> Grp("C", n), ax2 |-> 0] : n \in Ns }
       \cup { [s |-> "fliprot", g |-> Grp("D", n), ax2 |-> a] : n \in Ns, a \in Axes }
D(jk) == [t |-> "irrep", j |-> jk[1], k |-> jk[2]]
Init == sp \in Sps /\ i \in Irreps(sp.g) /\ o \in Irreps(sp.g) /\ F = 0
Next == F < MaxF /\ F' = F + 1 /\ UNCHANGED <<sp, i, o>>
Complete == DimBand(sp, D(i), D(o), F) = NPair(sp, i, o, F, 60)
Offsets0 == \A T \in 0 .. 2 : NPair(sp, i, o, F, T) <= NPair(sp, i, o, F, 60)
Transposed == NPair(sp, i, o, F, 60) = NPair(sp, o, i, F, 60)
(* operators of order <= F: harmonic parts of frequency m times powers of the Laplacian *)
RECURSIVE DegSum(_)
DegSum(f) == IF f < 0 THEN 0 ELSE DimDeg(sp, D(i), D(o), f) + DegSum(f - 1)
Orders == DegSum(F) =
  Sum([m \in 0 .. F |-> (NPair(sp, i, o, m, 60) - (IF m = 0 THEN 0 ELSE NPair(sp, i, o, m - 1, 60))) * ((F - m) \div 2 + 1)])
Grows == [][NPair(sp, i, o, F, 60) <= NPair(sp, i, o, F + 1, 60)]_vars
=============================================================================
