-------------------------------- MODULE Expr --------------------------------
(* Polynomials of degree two over a growing list of variables.               *)
(* e.lin, e.quad (upper triangular), e.const in units of 1/S.                *)
EXTENDS Num

Create(n, const, lin, quad) == [n |-> n, const |-> const, lin |-> lin, quad |-> Triu(quad)]
Grow(e, k) == [e EXCEPT !.n = @ + k, !.lin = PadVec(@, e.n + k), !.quad = PadMat(@, e.n + k)]
SetLin(e, i, v) == [e EXCEPT !.lin[i] = v]
SetQuad(e, i, j, v) == [e EXCEPT !.quad[IF i <= j THEN i ELSE j][IF i <= j THEN j ELSE i] = v]

\* values at a point in units of 1/X
LinAt(e, x) == Dot(e.lin, x)                              \* units 1/(S*X)
QuadAt(e, x) == Quad(e.quad, x)                           \* units 1/(S*X*X)
ObjAt(e, x, X) == e.const * X * X + X * LinAt(e, x) + QuadAt(e, x)
LinGrad(e) == e.lin                                       \* units 1/S
QuadGrad(e, x) == [i \in 1..e.n |-> SumSeq([j \in 1..e.n |-> (e.quad[i][j] + e.quad[j][i]) * x[j]])]
ObjGrad(e, x, X) == [i \in 1..e.n |-> X * e.lin[i] + QuadGrad(e, x)[i]]   \* units 1/(S*X)
Sym2(e) == [i \in 1..e.n |-> [j \in 1..e.n |-> e.quad[i][j] + e.quad[j][i]]]  \* units 1/(2*S)
Entries(s, n) == [i \in 1..n |-> [j \in 1..n |-> SumSeq([k \in 1..Len(s) |-> IF s[k][1] = i - 1 /\ s[k][2] = j - 1 THEN s[k][3] ELSE 0])]]
LEntries(s, n) == [i \in 1..n |-> SumSeq([k \in 1..Len(s) |-> IF s[k][1] = i - 1 THEN s[k][2] ELSE 0])]
=============================================================================
