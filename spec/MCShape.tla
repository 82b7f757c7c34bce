------------------------------ MODULE MCShape -------------------------------
(* The size formulas count window positions, over all options within bounds. *)
EXTENDS Shape, FiniteSets, TLC
CONSTANTS MaxN, MaxK
VARIABLES q, n
Qs == { [k |-> k, s |-> s, p |-> p, d |-> d, ceil |-> c, op |-> 0] :
        k \in 1 .. MaxK, s \in 1 .. 4, p \in 0 .. MaxK, d \in 1 .. 3, c \in BOOLEAN }
Fits(x, m) == m + 2 * x.p - x.d * (x.k - 1) - 1 >= 0
Init == q \in { x \in Qs : (~x.ceil \/ 2 * x.p <= x.k) } /\ n \in { m \in 1 .. MaxN : Fits(q, m) }
Next == UNCHANGED <<q, n>>
First(o) == (o - 1) * q.s - q.p + 1        \* first row a window reads
Last(o) == First(o) + q.d * (q.k - 1)
L == WinLen(q, n)
Positive == L >= 1
(* floor mode: exactly the windows inside the padded input *)
FloorExact == ~q.ceil => /\ Last(L) <= n + q.p /\ Last(L + 1) > n + q.p
(* ceil mode: at least as many; every window starts inside the input or its left padding; none that would start there and reach new rows is missing *)
CeilBound == q.ceil => /\ L >= WinLen([q EXCEPT !.ceil = FALSE], n) /\ L <= WinLen([q EXCEPT !.ceil = FALSE], n) + 1
                       /\ First(L) <= n
                       /\ (First(L + 1) > n \/ Last(L) >= n + q.p)
(* a transposed convolution inverts the size of an aligned convolution; output padding selects among the others *)
Inverse == ~q.ceil => LET r == (n + 2 * q.p - q.d * (q.k - 1) - 1) % q.s
                      IN TLen([q EXCEPT !.op = r], L) = n
(* adding padding or rows never shrinks the output *)
Monotone == L <= WinLen(q, n + 1) /\ (~q.ceil => L <= WinLen([q EXCEPT !.p = @ + 1], n))
=============================================================================
