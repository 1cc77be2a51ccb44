------------------------------ MODULE MCGrover ------------------------------
(* Every objective on two variables, every measurement history.              *)
EXTENDS Grover
CONSTANTS N, Vals
VARIABLES f, s, done
X2 == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}
Init == f \in [X2 -> Vals] /\ s = GInit /\ done = FALSE
Step == /\ ~done /\ ~GStops(s, N, 2)
        /\ \E x \in X2 : s' = GMeasure(s, x, f[x] - s.thr, <<>>)
        /\ UNCHANGED <<f, done>>
Stop == ~done /\ GStops(s, N, 2) /\ done' = TRUE /\ UNCHANGED <<f, s>>
Spec == Init /\ [][Step \/ Stop]_<<f, s, done>> /\ WF_<<f, s, done>>(Step \/ Stop)
Honest == s.x # <<>> => s.best = f[s.x] /\ s.thr = s.best
Monotone == [][s'.x # s.x /\ s.x # <<>> => s'.best < s.best]_<<f, s, done>>
BestSeen == \A x \in s.seen : s.best <= f[x]
Bounded == s.count <= (Cardinality(Range1(f)) + 1) * N + Cardinality(Range1(f))
Terminates == <>done
=============================================================================
