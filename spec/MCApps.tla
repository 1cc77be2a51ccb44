------------------------------- MODULE MCApps -------------------------------
(* Every instance up to the bounds: the reference encoding has exactly the   *)
(* objects as feasible points and their values as objective.                 *)
EXTENDS Apps
CONSTANTS Family, MaxN
VARIABLES app, inst
Pairs(n) == {e \in (1..n) \X (1..n) : e[1] < e[2]}
Wts == {1, 3, -2}
GraphOf(n, f) == LET es == SetToSeq(DOMAIN f) IN
   [S |-> 1, n |-> n, edges |-> [k \in 1..Len(es) |-> [u |-> es[k][1], v |-> es[k][2], w |-> f[es[k]]]], size |-> -1]
Graphs(n) == UNION {{GraphOf(n, f) : f \in [E -> Wts]} : E \in SUBSET Pairs(n)}
PlainGraphs(n) == {GraphOf(n, [e \in E |-> 1]) : E \in SUBSET Pairs(n)}
Sym(n, f) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE f[<<Min2(i, j), Max2(i, j)>>]]]
SeqsOf(D, n) == [1..n -> D]
Instances(a) ==
  CASE a \in {"maxcut", "partition"} -> UNION {Graphs(n) : n \in 1..Min2(MaxN, 3)} \cup UNION {PlainGraphs(n) : n \in 1..MaxN}
    [] a \in {"stable", "cover"} -> UNION {PlainGraphs(n) : n \in 1..MaxN}
    [] a = "clique" -> UNION {{[g EXCEPT !.size = s] : g \in PlainGraphs(n), s \in -1..n} : n \in 1..MaxN}
    [] a \in {"exact", "packing"} -> UNION {{[S |-> 1, subs |-> [i \in 1..n |-> SetToSeq(f[i])]] : f \in [1..n -> SUBSET {1, 2, 3}]} : n \in 1..Min2(MaxN, 3)}
    [] a = "knapsack" -> UNION {{[S |-> 1, val |-> v, wgt |-> w, cap |-> c] : v \in SeqsOf({0, 1, 3}, n), w \in SeqsOf({0, 1, 2}, n), c \in 0..4} : n \in 1..Min2(MaxN, 3)}
    [] a = "numbers" -> UNION {{[S |-> 1, num |-> v] : v \in SeqsOf(-1..3, n)} : n \in 1..MaxN}
    [] a = "tsp" -> UNION {{[S |-> 1, n |-> n, W |-> Sym(n, f)] : f \in [Pairs(n) -> {0, 1, 5}]} : n \in 1..Min2(MaxN, 3)}
    [] a = "vrp" -> UNION {{[S |-> 1, n |-> n, W |-> Sym(n, f), K |-> k, d |-> d] : f \in [Pairs(n) -> {1, 4}], k \in 1..2, d \in 1..n} : n \in 2..Min2(MaxN, 3)}
                    \cup (IF MaxN > 4 THEN {[S |-> 1, n |-> 4, W |-> Sym(4, [e \in Pairs(4) |-> e[1] + 3 * e[2]]), K |-> k, d |-> d] : k \in 1..3, d \in {1, 3}} ELSE {})
Init == app \in Family /\ inst \in Instances(app)
Next == UNCHANGED <<app, inst>>
Spec == Init /\ [][Next]_<<app, inst>>
All == AllBits(AppVars(app, inst))
EncodingExact == Encodes(app, inst, Encode(app, inst), All)
\* the dualities that tie the graph problems together
Duality == app \in {"stable", "cover", "clique"} => \A x \in All : LET U == Ones(x) C == (1..inst.n) \ U IN
   /\ IsStable(inst, U) = IsCover(inst, C)
   /\ IsClique(inst, U) = IsStable([inst EXCEPT !.edges = NonEdges(inst)], U)
CutSymmetric == app = "maxcut" => \A x \in All : CutWeight(inst, x) = CutWeight(inst, [i \in 1..inst.n |-> 1 - x[i]])
\* decoding is injective on objects
RoutesCover == app = "vrp" => \A x \in All : IsRoutes(inst, x) =>
   /\ Cardinality(RoutesOf(inst, x)) = inst.K
   /\ UNION {Range1(r) : r \in RoutesOf(inst, x)} = Arcs(inst.n, x)
=============================================================================
