--------------------------- MODULE TraceInstances ---------------------------
EXTENDS Instances, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  CASE ev.ev = "gset" ->
         Cl("matrix is the graph of the file", ev.mat = EdgeMatrix(ev.n, ev.lines))
         \cup Cl("graph made from it has these edges", \A i, j \in 1..ev.n : ev.graph[i][j] = EdgeMatrix(ev.n, ev.lines)[i][j])
    [] ev.ev = "gsetresult" -> Cl("sides are reported per node, counted from one",
         /\ Len(ev.keys) = Len(ev.x) /\ \A k \in 1..Len(ev.x) : ev.keys[k] = k /\ ev.vals[k] = 1 - ev.x[k])
    [] ev.ev = "tsplib" ->
         IF SupportedFile(ev.typ, ev.ew)
         THEN Then(Cl("supported file is read", ev.raised = ""),
              Then(Cl("complete graph on the nodes of the file", ev.n = Len(ev.nodes) /\ Complete(ev.n, ev.edges)),
                   Cl("distances are the rounded Euclidean ones", Distances(ev.nodes, ev.edges))
                   \cup Cl("positions are those of the file", \A k \in 1..ev.n : ev.pos[k] = NodeAt(ev.nodes, k))))
         ELSE Cl("unsupported file is refused with the library's error", ev.raised = "QiskitOptimizationError")
    [] ev.ev = "random" ->       \* positions in units of 1/1000
         Then(Cl("complete graph of the requested size", ev.n = ev.size /\ Complete(ev.n, ev.edges)),
              Cl("positions within the requested range", \A k \in 1..ev.n : \A c \in 1..2 :
                   1000 * ev.low - 1 <= ev.pos[k][c] /\ ev.pos[k][c] <= 1000 * ev.high + 1)
              \cup Cl("weights are the rounded distances", \A k \in 1..Len(ev.edges) : LET e == ev.edges[k] IN Abs(e.d - 1000 * e.w) <= 502)
              \cup Cl("same seed, same instance", ev.again)
              \cup Cl("settings are kept", ev.asked = ev.kept))
    [] ev.ev = "graph" -> Cl("requested numbers of nodes and edges", ev.nodes = ev.size /\ ev.edges = ev.num /\ ev.again)
    [] ev.ev = "likely" ->
         Cl("most probable bit string in variable order", \E k \in Likeliest(ev.ws) : ev.x = BitsLE(k - 1, ev.n))
    [] ev.ev = "route" ->
         Cl("tour length is the sum along the closed tour",
            ev.val = SumSeq([k \in 1..Len(ev.z) |-> ev.mat[ev.z[k]][ev.z[IF k = Len(ev.z) THEN 1 ELSE k + 1]]]))
=============================================================================
