------------------------------- MODULE Turns -------------------------------
(* A catalogue of rational angles *)
EXTENDS Conic, Dirs
V(n) == <<RI(n), RI(0)>>
(* unit steps of rational angle with the number of times they fit in a turn; *)
(* h is the half step if that is rational too                                *)
Sq(h) == Mul2(h, h)
Half(h, n) == [step |-> Sq(h), h |-> h, n |-> n]
Plain(e, n) == [step |-> e, h |-> <<>>, n |-> n]
Steps == << Half(U2(4, 3, 5), 4), Half(U2(12, 5, 13), 7), Half(U2(3, 4, 5), 3), Half(U2(15, 8, 17), 6),
            Half(U2(99, 20, 101), 15), Half(U2(7, 24, 25), 2),
            Plain(U2(0, 1, 1), 4), Plain(U2(-1, 0, 1), 2), Plain(U2(4, 3, 5), 9), Plain(U2(-3, 4, 5), 2), Plain(U2(999999, 2000, 1000001), 1),
            Plain(U2(-4, 3, 5), 2), Plain(U2(-4, -3, 5), 1), Plain(U2(0, -1, 1), 1), Plain(U2(3, -4, 5), 1), Plain(U2(4, -3, 5), 1) >>
IsFull(st, m) == st.n = m /\ ((m = 4 /\ VEq(st.step, U2(0, 1, 1))) \/ (m = 2 /\ VEq(st.step, U2(-1, 0, 1))))
=============================================================================
