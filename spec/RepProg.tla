------------------------------ MODULE RepProg -------------------------------
(* Programs building representations: a stack machine.  State                *)
(*   [g |-> group, s |-> stack of representation descriptions]               *)
(* Used both to generate programs (GenRep) and to judge recorded runs (J03). *)
EXTENDS Rep

Shear(n, w) ==      \* integer change of basis number w of size n
  [i \in 1 .. n |-> [j \in 1 .. n |->
     LET p == ((i + w - 1) % n) + 1   \* row i of the shear . shift
         base == IF j = p THEN 1 ELSE 0
     IN IF n > 1 /\ i = 1 /\ j = ((w + 1) % n) + 1 THEN base + 1 ELSE base]]
(* Shear = E.P with P the cyclic shift (row i = e_{(i+w) mod n}) and E the   *)
(* identity plus a 1 at (1,2); the inverse is P^T.E^-1                       *)
ShearInv(n, w) ==
  [i \in 1 .. n |-> [j \in 1 .. n |->
     LET row == ((i - 1 - w) % n) + 1   \* P^T row i = e_row
     IN (IF j = row THEN 1 ELSE 0) - (IF n > 1 /\ row = 1 /\ j = 2 THEN 1 ELSE 0)]]

ReplTop(st, d) == [st EXCEPT !.s[Len(st.s)] = d]
Top(st) == st.s[Len(st.s)]
Push(st, d) == [st EXCEPT !.s = Append(@, d)]
Depth(st) == Len(st.s)

Apply(st, o) ==
  CASE o.o = "start" -> [g |-> o.g, s |-> <<>>]
    [] o.o = "irrep" -> Push(st, [t |-> "irrep", j |-> o.j, k |-> o.k])
    [] o.o = "reg" -> Push(st, [t |-> "reg"])
    [] o.o = "quo" -> Push(st, [t |-> "quo", a |-> o.a, m |-> o.m])
    [] o.o = "ind" -> Push(st, [t |-> "ind", a |-> o.a, m |-> o.m,
                                d |-> [t |-> "irrep", j |-> o.j, k |-> o.k]])
    [] o.o = "sum" -> LET n == Len(st.s)
                          d == [t |-> "sum", s |-> <<st.s[n - 1], st.s[n]>>]
                      IN [g |-> st.g, s |-> Append(SubSeq(st.s, 1, n - 2), d)]
    [] o.o = "sumq" -> LET n == Len(st.s)
                           d == [t |-> "sum", s |-> SubSeq(st.s, n - o.n + 1, n)]
                           z == Size(st.g, d)
                       IN [g |-> st.g, s |-> Append(SubSeq(st.s, 1, n - o.n),
                                                    [t |-> "cob", q |-> Shear(z, o.w), qi |-> ShearInv(z, o.w), d |-> d])]
    [] o.o = "cob" -> LET n == Size(st.g, Top(st)) IN
                      ReplTop(st, [t |-> "cob", q |-> Shear(n, o.w), qi |-> ShearInv(n, o.w), d |-> Top(st)])
    [] o.o = "res" -> [g |-> SubGroup(st.g, <<o.a, o.m>>),
                       s |-> << [t |-> "res", g |-> st.g, a |-> o.a, m |-> o.m, d |-> Top(st)] >>]
    [] o.o \in {"dis", "dec"} -> st
=============================================================================
