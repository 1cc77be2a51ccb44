------------------------------ MODULE Drawing ------------------------------
(* What a drawn application shows.  A picture is what can be seen:           *)
(*   labels   sequence of [node, x, y]: the names written into the picture   *)
(*   markers  sequence of [node, c]: the coloured dots, identified with the  *)
(*            node whose name stands there, 0 if there is none               *)
(*   edges    sequence of [u, v]: the thin black lines                       *)
(*   marks    sequence of [u, v, c]: the highlighted lines                   *)
(* Nodes are 1..n, colours are arbitrary numbers except black 0 and red 1.   *)
EXTENDS Apps

Colored == {"maxcut", "partition", "stable", "cover", "clique"}
ColorOf(pic, i) == LET k == CHOOSE k \in 1..Len(pic.markers) : pic.markers[k].node = i IN pic.markers[k].c
\* every node appears once, with its name and its dot, where it was asked to be
NodesShown(n, pic) == /\ Len(pic.labels) = n /\ {pic.labels[k].node : k \in 1..Len(pic.labels)} = 1..n
                      /\ Len(pic.markers) = n /\ {pic.markers[k].node : k \in 1..Len(pic.markers)} = 1..n
AtPositions(pos, pic) == \A k \in 1..Len(pic.labels) : LET l == pic.labels[k] IN <<l.x, l.y>> = pos[l.node]
Pairs(s) == {{s[k].u, s[k].v} : k \in 1..Len(s)}
EdgesShown(E, pic) == Pairs(pic.edges) = E /\ Len(pic.edges) = Cardinality(E)
OneColor(n, pic) == \A i, j \in 1..n : ColorOf(pic, i) = ColorOf(pic, j)
\* two nodes have the same colour exactly if the assignment puts them on the same side
SidesShown(x, pic) == \A i, j \in 1..Len(x) : (ColorOf(pic, i) = ColorOf(pic, j)) <=> (x[i] = x[j])
\* an application that selects nodes shows the selected ones in red, and only them
Selecting == {"stable", "cover", "clique"}
SelectionShown(x, pic) == \A i \in 1..Len(x) : (ColorOf(pic, i) = 1) <=> (x[i] = 1)
\* the edges of a closed tour, of a route
Closed(y) == {{y[k], y[IF k = Len(y) THEN 1 ELSE k + 1]} : k \in 1..Len(y)}
TourShown(n, x, pic) == Pairs(pic.marks) = Closed(TourOf(n, x))
                        /\ \A a, b \in 1..Len(pic.marks) : pic.marks[a].c = pic.marks[b].c
EdgesOf(route) == {{route[k][1], route[k][2]} : k \in 1..Len(route)}
MarksOn(pic, E) == {k \in 1..Len(pic.marks) : {pic.marks[k].u, pic.marks[k].v} \in E}
\* exactly the edges of the routes, one colour per route
RoutesShown(t, x, pic) == LET R == RoutesOf(t, x) IN
   /\ Pairs(pic.marks) = UNION {EdgesOf(r) : r \in R}
   /\ \A r, s \in R : \A a \in MarksOn(pic, EdgesOf(r)), b \in MarksOn(pic, EdgesOf(s)) :
         (pic.marks[a].c = pic.marks[b].c) <=> (r = s)
PictureOf(app, t, x, pic) ==
   IF app \in Colored THEN pic.marks = <<>> /\ SidesShown(x, pic) /\ (app \in Selecting => SelectionShown(x, pic))
   ELSE /\ OneColor(t.n, pic)
        /\ IF app = "tsp" THEN TourShown(t.n, x, pic) ELSE RoutesShown(t, x, pic)
=============================================================================
