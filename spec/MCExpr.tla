------------------------------- MODULE MCExpr -------------------------------
(* The algebra behind the representation: folding a full matrix into an      *)
(* upper triangle, halving it into a symmetric one, entry updates and growth *)
(* never change the polynomial, and the gradient is the derivative.          *)
EXTENDS Expr
VARIABLES m, lin, e, phase
V == {-1, 0, 2}
Pts(n) == [1..n -> {-1, 0, 1, 3}]
Mats == [1..2 -> [1..2 -> V]]
Init == m \in Mats /\ lin \in [1..2 -> {-1, 2}] /\ e = Create(2, 5, lin, m) /\ phase = "created"
GrowIt == phase = "created" /\ e' = Grow(e, 1) /\ phase' = "grown" /\ UNCHANGED <<m, lin>>
SetIt == /\ phase = "grown" /\ phase' = "set" /\ UNCHANGED <<m, lin>>
         /\ \E i, j \in 1..3, v \in V : e' = SetQuad(SetLin(e, i, v), i, j, v)
Next == GrowIt \/ SetIt
Spec == Init /\ [][Next]_<<m, lin, e, phase>>
Two(x) == <<x[1], x[2]>>
Denotes == phase \in {"created", "grown"} =>
   \A x \in Pts(e.n) : ObjAt(e, x, 1) = 5 + Dot(lin, Two(x)) + Quad(m, Two(x))
Symmetric == \A x \in Pts(e.n) : Quad(Sym2(e), x) = 2 * QuadAt(e, x)
Derivative == \A x \in Pts(e.n) : \A i \in 1..e.n :
   \* q(x + t e_i) - q(x - t e_i) = 2 t dq/dx_i for a quadratic polynomial
   LET up == [x EXCEPT ![i] = @ + 1] dn == [x EXCEPT ![i] = @ - 1] IN
   ObjAt(e, up, 1) - ObjAt(e, dn, 1) = 2 * ObjGrad(e, x, 1)[i]
Upper == \A i, j \in 1..e.n : j < i => e.quad[i][j] = 0
=============================================================================
