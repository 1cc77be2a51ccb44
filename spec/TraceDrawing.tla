---------------------------- MODULE TraceDrawing ----------------------------
EXTENDS Drawing, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
EdgeSet(ev) == IF ev.app \in Colored THEN {{ev.t.edges[k].u, ev.t.edges[k].v} : k \in 1..Len(ev.t.edges)}
               ELSE {{i, j} : i, j \in 1..ev.t.n} \ {{i} : i \in 1..ev.t.n}
XVerdict(s, ev) ==
  CASE ev.ev = "picture" ->
         IF ev.shown /\ ev.app \in {"tsp", "vrp"} /\ ~AppObject(ev.app, ev.t, ev.x) THEN {}
         ELSE
         Then(Cl("every node is shown once", NodesShown(ev.t.n, ev.pic)),
              Cl("nodes stand at the given positions", ev.given => AtPositions(ev.pos, ev.pic))
              \cup Cl("the edges of the graph are shown", EdgesShown(EdgeSet(ev), ev.pic))
              \cup (IF ev.shown THEN Cl("the picture shows the denoted object", PictureOf(ev.app, ev.t, ev.x, ev.pic))
                    ELSE Cl("without a result nothing is highlighted", ev.pic.marks = <<>> /\ OneColor(ev.t.n, ev.pic))))
    [] ev.ev = "same" -> Cl("drawing changes nothing", ev.before = ev.after)
=============================================================================
