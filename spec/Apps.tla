------------------------------- MODULE Apps -------------------------------
(* The combinatorial problems behind the application classes, defined over   *)
(* the objects themselves, independently of any encoding.  An assignment x   *)
(* is a sequence of zeros and ones.  Weights are in units of 1/g.S.          *)
(*   graph      [n, edges: sequence of [u, v, w]], nodes 1..n                *)
(*   set system [subs: sequence of sequences of elements]                    *)
(*   knapsack   [val, wgt, cap];  number set [num]                           *)
(*   routing    [n, W: matrix, K: vehicles, d: depot]                        *)
EXTENDS QP

Ones(x) == {i \in 1..Len(x) : x[i] # 0}
Zer(x) == {i \in 1..Len(x) : x[i] = 0}
Adj(g, a, b) == \E k \in 1..Len(g.edges) : {g.edges[k].u, g.edges[k].v} = {a, b}
SumEdges(g, pred(_)) == SumSeq([k \in 1..Len(g.edges) |-> IF pred(g.edges[k]) THEN g.edges[k].w ELSE 0])
CutWeight(g, x) == SumEdges(g, LAMBDA e : x[e.u] # x[e.v])
IsStable(g, U) == \A a, b \in U : a # b => ~Adj(g, a, b)
IsCover(g, U) == \A k \in 1..Len(g.edges) : g.edges[k].u \in U \/ g.edges[k].v \in U
IsClique(g, U) == \A a, b \in U : a # b => Adj(g, a, b)

Sub(t, i) == Range1(t.subs[i])
Elements(t) == UNION {Sub(t, i) : i \in 1..Len(t.subs)}
IsExactCover(t, U) == \A e \in Elements(t) : Cardinality({i \in U : e \in Sub(t, i)}) = 1
IsPacking(t, U) == \A i, j \in U : i # j => Sub(t, i) \cap Sub(t, j) = {}
Total(v, U) == SumSeq([i \in 1..Len(v) |-> IF i \in U THEN v[i] ELSE 0])

\* tours: the node at position k is y[k]; x is node-major
TourAt(n, x, k) == {i \in 1..n : x[(i - 1) * n + k] # 0}
IsTour(n, x) == /\ \A k \in 1..n : Cardinality(TourAt(n, x, k)) = 1
                /\ UNION {TourAt(n, x, k) : k \in 1..n} = 1..n
TourOf(n, x) == [k \in 1..n |-> CHOOSE i \in 1..n : i \in TourAt(n, x, k)]
TourLen(W, y) == SumSeq([k \in 1..Len(y) |-> W[y[k]][y[IF k = Len(y) THEN 1 ELSE k + 1]]])

\* routes: x lists the arcs (i, j), i # j, in lexicographic order
ArcPos(n, i, j) == (i - 1) * (n - 1) + (IF j > i THEN j - 1 ELSE j)
Arcs(n, x) == {a \in (1..n) \X (1..n) : a[1] # a[2] /\ x[ArcPos(n, a[1], a[2])] # 0}
RECURSIVE Reach(_, _, _)
Reach(A, R, k) == IF k = 0 THEN R ELSE Reach(A, R \cup {a[2] : a \in {b \in A : b[1] \in R}}, k - 1)
IsRoutes(r, x) == LET A == Arcs(r.n, x) Cust == (1..r.n) \ {r.d} IN
   /\ \A c \in Cust : Cardinality({a \in A : a[1] = c}) = 1 /\ Cardinality({a \in A : a[2] = c}) = 1
   /\ Cardinality({a \in A : a[1] = r.d}) = r.K /\ Cardinality({a \in A : a[2] = r.d}) = r.K
   /\ Cust \subseteq Reach(A, {r.d}, r.n)
RouteLen(r, x) == SumFn([a \in Arcs(r.n, x) |-> r.W[a[1]][a[2]]], Arcs(r.n, x))
RECURSIVE Walk(_, _, _, _)
Walk(A, d, a, k) == IF a[2] = d \/ k = 0 THEN <<a>>
                    ELSE <<a>> \o Walk(A, d, CHOOSE b \in A : b[1] = a[2], k - 1)
RoutesOf(r, x) == LET A == Arcs(r.n, x) IN {Walk(A, r.d, a, r.n) : a \in {b \in A : b[1] = r.d}}

\* what the program of an application must mean
AppVars(app, t) == CASE app \in {"maxcut", "partition", "stable", "cover", "clique"} -> t.n
                     [] app \in {"exact", "packing"} -> Len(t.subs)
                     [] app = "knapsack" -> Len(t.val)
                     [] app = "numbers" -> Len(t.num)
                     [] app = "tsp" -> t.n * t.n
                     [] app = "vrp" -> t.n * (t.n - 1)
AppSense(app, t) == CASE app \in {"maxcut", "stable", "packing", "knapsack"} -> -1
                      [] app = "clique" -> IF t.size < 0 THEN -1 ELSE 1
                      [] OTHER -> 1
AppObject(app, t, x) ==
  CASE app = "maxcut" -> TRUE
    [] app = "partition" -> Cardinality(Ones(x)) = t.n \div 2
    [] app = "stable" -> IsStable(t, Ones(x))
    [] app = "cover" -> IsCover(t, Ones(x))
    [] app = "clique" -> IsClique(t, Ones(x)) /\ (t.size >= 0 => Cardinality(Ones(x)) = t.size)
    [] app = "exact" -> IsExactCover(t, Ones(x))
    [] app = "packing" -> IsPacking(t, Ones(x))
    [] app = "knapsack" -> Total(t.wgt, Ones(x)) <= t.cap
    [] app = "numbers" -> Total(t.num, Ones(x)) = Total(t.num, Zer(x))
    [] app = "tsp" -> IsTour(t.n, x)
    [] app = "vrp" -> IsRoutes(t, x)
AppValue(app, t, x) ==
  CASE app \in {"maxcut", "partition"} -> CutWeight(t, x)
    [] app \in {"stable", "cover", "exact", "packing"} -> t.S * Cardinality(Ones(x))
    [] app = "clique" -> IF t.size < 0 THEN t.S * Cardinality(Ones(x)) ELSE 0
    [] app = "knapsack" -> Total(t.val, Ones(x))
    [] app = "numbers" -> 0
    [] app = "tsp" -> TourLen(t.W, TourOf(t.n, x))
    [] app = "vrp" -> RouteLen(t, x)

Encodes(app, t, p, P) == \A x \in P : LET o == AppObject(app, t, x) IN
                            /\ Feasible(p, x) = o
                            /\ o => Obj(p, x) = AppValue(app, t, x)
\* a fixed-size clique program has no objective, so neither sense nor value matters
SenseOK(app, t, p) == (app = "clique" /\ t.size >= 0) \/ app = "numbers" \/ p.sense = AppSense(app, t)

CountIn(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(s, u) == Len(s) = Len(u) /\ \A i \in 1..Len(s) : CountIn(s, s[i]) = CountIn(u, s[i])
Pick(v, x, b) == LET idx == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : (x[i] # 0) = b) IN [k \in 1..Len(idx) |-> v[idx[k]]]
AsSet(s, U) == Range1(s) = U /\ Len(s) = Cardinality(U)
\* what interpreting an assignment must return
Denotes(app, t, x, out) ==
  CASE app \in {"maxcut", "partition"} -> Len(out) = 2 /\ AsSet(out[1], Zer(x)) /\ AsSet(out[2], Ones(x))
    [] app \in {"stable", "cover", "clique", "knapsack"} -> AsSet(out, Ones(x))
    [] app \in {"exact", "packing"} -> SameBag(out, Pick(t.subs, x, TRUE))
    [] app = "numbers" -> Len(out) = 2 /\ SameBag(out[1], Pick(t.num, x, FALSE)) /\ SameBag(out[2], Pick(t.num, x, TRUE))
    [] app = "tsp" -> out = [k \in 1..t.n |-> SetToSortSeq(TourAt(t.n, x, k), <)]
    [] app = "vrp" -> AsSet(out, RoutesOf(t, x))

\* ------------------------------------------------ reference encodings
Bin(i) == [name |-> ToString(i), type |-> "B", lb |-> 0, ub |-> 1]
Base(n, sense) == [S |-> 1, vars |-> [i \in 1..n |-> Bin(i)], sense |-> sense, const |-> 0, lin |-> Zeros(n), quad |-> ZeroMat(n),
                   lc |-> <<>>, qc |-> <<>>]
Con(lin, sense, rhs) == [name |-> "c", lin |-> lin, sense |-> sense, rhs |-> rhs]
Ind(n, U) == [i \in 1..n |-> IF i \in U THEN 1 ELSE 0]
EdgeCons(n, es, sense) == [k \in 1..Len(es) |-> Con(Ind(n, {es[k].u, es[k].v}), sense, 1)]
CutLin(g) == [i \in 1..g.n |-> SumEdges(g, LAMBDA e : i \in {e.u, e.v})]
CutQuad(g) == [i \in 1..g.n |-> [j \in 1..g.n |-> IF i < j THEN -2 * SumEdges(g, LAMBDA e : {e.u, e.v} = {i, j}) ELSE 0]]
NonEdges(g) == SetToSeq({e \in [u : 1..g.n, v : 1..g.n, w : {1}] : e.u < e.v /\ ~Adj(g, e.u, e.v)})
Encode(app, t) ==
  LET n == AppVars(app, t) B == Base(n, AppSense(app, t)) IN
  CASE app = "maxcut" -> [B EXCEPT !.lin = CutLin(t), !.quad = CutQuad(t)]
    [] app = "partition" -> [B EXCEPT !.lin = CutLin(t), !.quad = CutQuad(t), !.lc = <<Con(Ind(n, 1..n), "EQ", n \div 2)>>]
    [] app = "stable" -> [B EXCEPT !.lin = Ind(n, 1..n), !.lc = EdgeCons(n, t.edges, "LE")]
    [] app = "cover" -> [B EXCEPT !.lin = Ind(n, 1..n), !.lc = EdgeCons(n, t.edges, "GE")]
    [] app = "clique" -> [B EXCEPT !.lin = IF t.size < 0 THEN Ind(n, 1..n) ELSE Zeros(n),
                                   !.lc = EdgeCons(n, NonEdges(t), "LE") \o
                                          (IF t.size < 0 THEN <<>> ELSE <<Con(Ind(n, 1..n), "EQ", t.size)>>)]
    [] app \in {"exact", "packing"} -> LET es == SetToSeq(Elements(t)) IN
           [B EXCEPT !.lin = Ind(n, 1..n), !.lc = [k \in 1..Len(es) |->
               Con(Ind(n, {i \in 1..n : es[k] \in Sub(t, i)}), IF app = "exact" THEN "EQ" ELSE "LE", 1)]]
    [] app = "knapsack" -> [B EXCEPT !.lin = t.val, !.lc = <<Con(t.wgt, "LE", t.cap)>>]
    [] app = "numbers" -> [B EXCEPT !.lc = <<Con([i \in 1..n |-> 2 * t.num[i]], "EQ", SumSeq(t.num))>>]
    [] app = "tsp" -> LET m == t.n P(i, k) == (i - 1) * m + k
                          Node(a) == ((a - 1) \div m) + 1 Pos(a) == ((a - 1) % m) + 1 IN
           [B EXCEPT !.quad = [a \in 1..n |-> [b \in 1..n |->
                                IF Node(a) # Node(b) /\ Pos(b) = (Pos(a) % m) + 1 THEN t.W[Node(a)][Node(b)] ELSE 0]],
                     !.lc = [i \in 1..m |-> Con(Ind(n, {P(i, k) : k \in 1..m}), "EQ", 1)] \o
                            [k \in 1..m |-> Con(Ind(n, {P(i, k) : i \in 1..m}), "EQ", 1)]]
    [] app = "vrp" -> LET m == t.n Cust == (1..m) \ {t.d} cs == SetToSeq(Cust)
                          In(j) == {ArcPos(m, i, j) : i \in (1..m) \ {j}} Out(i) == {ArcPos(m, i, j) : j \in (1..m) \ {i}}
                          gs == SetToSeq({G \in SUBSET Cust : Cardinality(G) >= 2}) IN
           [B EXCEPT !.lin = [a \in 1..n |-> LET c == CHOOSE ij \in (1..m) \X (1..m) : ij[1] # ij[2] /\ ArcPos(m, ij[1], ij[2]) = a
                                             IN t.W[c[1]][c[2]]],
                     !.lc = [k \in 1..Len(cs) |-> Con(Ind(n, Out(cs[k])), "EQ", 1)] \o
                            [k \in 1..Len(cs) |-> Con(Ind(n, In(cs[k])), "EQ", 1)] \o
                            <<Con(Ind(n, In(t.d)), "EQ", t.K), Con(Ind(n, Out(t.d)), "EQ", t.K)>> \o
                            [k \in 1..Len(gs) |-> Con(Ind(n, {ArcPos(m, a, b) : a \in gs[k], b \in gs[k]} \cap
                                    {ArcPos(m, ab[1], ab[2]) : ab \in {z \in gs[k] \X gs[k] : z[1] # z[2]}}), "LE", Cardinality(gs[k]) - 1)]]
=============================================================================
