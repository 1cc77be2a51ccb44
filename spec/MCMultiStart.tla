---------------------------- MODULE MCMultiStart ----------------------------
EXTENDS MultiStart
CONSTANTS Trials, Pts, Sense
VARIABLES s, hist
P == [S |-> 2, vars |-> <<[name |-> "x", type |-> "C", lb |-> -INF, ub |-> INF]>>, sense |-> Sense, const |-> 1, lin |-> <<-2>>, quad |-> <<<<1>>>>, lc |-> <<>>, qc |-> <<>>]
Neg == -1
Init == s = MInit /\ hist = <<>>
Go == s.k < Trials /\ \E v \in Pts : s' = MTrial(P, s, <<v - 3>>) /\ hist' = Append(hist, v - 3)
Spec == Init /\ [][Go]_<<s, hist>>
Value(v) == P.sense * ObjX(P, <<v>>, 2)
BestOfAll == s.k > 0 => s.best.who = {k \in 1..s.k : \A j \in 1..s.k : Value(hist[k]) <= Value(hist[j])}
Kept == [][s.k > 0 => s'.best.v <= s.best.v]_<<s, hist>>
=============================================================================
