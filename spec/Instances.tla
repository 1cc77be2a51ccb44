----------------------------- MODULE Instances -----------------------------
(* Instance files as sequences of lines, and what reading them yields.       *)
(* A Gset file lists edges [a, b, w]; a TSPLIB file lists nodes [id, x, y]   *)
(* with coordinates in units of 1/2, so that squared distances are in units  *)
(* of 1/4.                                                                   *)
EXTENDS Num
\* Gset: the symmetric matrix after reading a set of edge lines
EdgeMatrix(n, lines) == [i \in 1..n |-> [j \in 1..n |->
   SumSeq([k \in 1..Len(lines) |-> IF {lines[k].a, lines[k].b} = {i, j} /\ i # j THEN lines[k].w ELSE 0])]]
\* the reader takes one line at a time
ReadEdge(m, e) == [m EXCEPT ![e.a][e.b] = @ + e.w, ![e.b][e.a] = @ + e.w]
\* TSPLIB: Euclidean distance rounded to the nearest integer, half either way
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])    \* units 1/4
Rounded(d, d2) == d >= 0 /\ (d = 0 \/ (2 * d - 1) * (2 * d - 1) <= d2) /\ d2 <= (2 * d + 1) * (2 * d + 1)
Complete(n, edges) == {<<edges[k].a, edges[k].b>> : k \in 1..Len(edges)} = {<<i, j>> : i \in 1..n, j \in 1..n} \cap {e \in (1..n) \X (1..n) : e[1] < e[2]}
                      /\ Len(edges) * 2 = n * (n - 1)
NodeAt(nodes, i) == LET k == CHOOSE k \in 1..Len(nodes) : nodes[k].id = i IN <<nodes[k].x, nodes[k].y>>
Distances(nodes, edges) == \A k \in 1..Len(edges) : Rounded(edges[k].w, Dist2(NodeAt(nodes, edges[k].a), NodeAt(nodes, edges[k].b)))
SupportedFile(typ, ew) == typ = "TSP" /\ ew = "EUC_2D"
\* sampling: weights indexed by basis state; bits in variable order
Likeliest(ws) == {k \in 1..Len(ws) : \A j \in 1..Len(ws) : ws[j] <= ws[k]}
=============================================================================
