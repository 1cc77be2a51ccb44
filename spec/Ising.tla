-------------------------------- MODULE Ising --------------------------------
(* Diagonal two-local Hamiltonians and binary programs.                      *)
(* A Hamiltonian is a sequence of terms [z, c]: z the set (as a sequence) of *)
(* qubits (from 1) carrying a Z, c the coefficient.  Qubit i is variable i;  *)
(* the basis state of an assignment has Z_i = (-1)^x_i.                      *)
EXTENDS QP
SignAt(z, x) == IF SumSeq([k \in 1..Len(z) |-> x[z[k]]]) % 2 = 0 THEN 1 ELSE -1
TermsAt(terms, x) == SumSeq([k \in 1..Len(terms) |-> terms[k].c * SignAt(terms[k].z, x)])

\* reference translation, in units of 1/(4*S): x_i = (1 - Z_i)/2
ToIsing(p) ==
  LET n == NVars(p) s == p.sense t == Triu(p.quad)
      lin == [i \in 1..n |-> [z |-> <<i>>, c |-> -s * (2 * p.lin[i] + 2 * t[i][i]
                 + SumSeq([j \in 1..n |-> IF i < j THEN t[i][j] ELSE IF j < i THEN t[j][i] ELSE 0]))]]
      prs == {<<i, j>> \in (1..n) \X (1..n) : i < j}
      two == [pr \in prs |-> [z |-> <<pr[1], pr[2]>>, c |-> s * t[pr[1]][pr[2]]]]
  IN [terms |-> lin \o SetToSeq({two[pr] : pr \in prs}),
      offset |-> s * (4 * p.const + 2 * SumSeq(p.lin) + 2 * SumSeq([i \in 1..n |-> t[i][i]])
                      + SumSeq([i \in 1..n |-> SumSeq([j \in 1..n |-> IF i < j THEN t[i][j] ELSE 0])]))]
=============================================================================
