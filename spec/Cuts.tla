-------------------------------- MODULE Cuts --------------------------------
(* Randomised rounding of the max-cut relaxation.  w: symmetric weight       *)
(* matrix in units of 1/2.  A cut is a 0/1 vector; both a vector and its     *)
(* complement denote the same cut.                                           *)
EXTENDS Samples
CutVal(w, x) == SumSeq([i \in 1..Len(w) |-> SumSeq([j \in 1..Len(w) |-> IF i < j /\ x[i] # x[j] THEN w[i][j] ELSE 0])])
Flip(x) == [i \in 1..Len(x) |-> 1 - x[i]]
BestCut(w) == LET vals == {CutVal(w, x) : x \in AllBits(Len(w))} IN CHOOSE v \in vals : \A u \in vals : u <= v
Total(w) == SumSeq([i \in 1..Len(w) |-> SumSeq([j \in 1..Len(w) |-> IF i < j THEN Abs(w[i][j]) ELSE 0])])
\* value of the relaxation at a correlation matrix (entries in parts per thousand), in units of 1/4000
Relaxed(w, chi) == SumSeq([i \in 1..Len(w) |-> SumSeq([j \in 1..Len(w) |-> IF i < j THEN w[i][j] * (1000 - chi[i][j]) ELSE 0])])
Upper(w, chi, tol) == Relaxed(w, chi) + tol * (1 + Total(w)) >= 2000 * BestCut(w)
Correlation(chi, n, tol) == Len(chi) = n /\ \A i, j \in 1..n : /\ Near(chi[i][j], chi[j][i], tol) /\ Abs(chi[i][j]) <= 1000 + tol
                                                                /\ (i = j => Near(chi[i][i], 1000, tol))
\* two colours so that every edge is cut; all weights positive
Bipartite(w) == /\ \A i, j \in 1..Len(w) : w[i][j] >= 0
                /\ \E x \in AllBits(Len(w)) : \A i, j \in 1..Len(w) : w[i][j] # 0 => x[i] # x[j]
=============================================================================
