------------------------------ MODULE Exchange ------------------------------
(* Exchange of programs with DOcplex models and LP files.                    *)
(* A foreign model has comparisons with polynomials on both sides; importing *)
(* moves everything with variables to the left and constants to the right.   *)
EXTENDS QP

\* constraints that constrain nothing are not exported
Hollow(c) == /\ \A i \in 1..Len(c.lin) : c.lin[i] = 0
             /\ ("quad" \in DOMAIN c) => \A i \in 1..Len(c.quad) : \A j \in 1..Len(c.quad) : c.quad[i][j] = 0
Trivial(c) == Hollow(c) /\ Holds(c.sense, 0, c.rhs)
\* constraints that nothing satisfies are never dropped: such a program is refused
Impossible(c) == Hollow(c) /\ ~Holds(c.sense, 0, c.rhs)
Hopeless(p) == (\E k \in 1..Len(p.lc) : Impossible(p.lc[k])) \/ (\E k \in 1..Len(p.qc) : Impossible(p.qc[k]))
Exported(p) == [p EXCEPT !.lc = SelectSeq(@, LAMBDA c : ~Trivial(c)), !.qc = SelectSeq(@, LAMBDA c : ~Trivial(c))]

Neg(s) == CASE s = "LE" -> "GE" [] s = "GE" -> "LE" [] OTHER -> s
Sub2(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Moved(c) == [name |-> c.name, sense |-> c.sense, rhs |-> c.right.const - c.left.const,
             lin |-> Sub2(c.left.lin, c.right.lin),
             quad |-> Triu([i \in 1..Len(c.left.quad) |-> Sub2(c.left.quad[i], c.right.quad[i])])]
Flip(c) == [name |-> c.name, sense |-> Neg(c.sense), rhs |-> -c.rhs,
            lin |-> [i \in 1..Len(c.lin) |-> -c.lin[i]],
            quad |-> [i \in 1..Len(c.quad) |-> [j \in 1..Len(c.quad) |-> -c.quad[i][j]]]]
AsQuad(c, n) == [name |-> c.name, sense |-> c.sense, rhs |-> c.rhs, lin |-> c.lin,
                 quad |-> IF "quad" \in DOMAIN c THEN Triu(c.quad) ELSE ZeroMat(n)]
Equivalent(a, b) == a = b \/ Flip(a) = b
\* a two-sided comparison holds at x
SideAt(s, x) == s.const + Dot(s.lin, x) + Quad(s.quad, x)
HoldsTwo(c, x) == Holds(c.sense, SideAt(c.left, x), SideAt(c.right, x))
HoldsOne(c, x) == Holds(c.sense, Dot(c.lin, x) + Quad(c.quad, x), c.rhs)
=============================================================================
