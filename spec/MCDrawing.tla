----------------------------- MODULE MCDrawing -----------------------------
(* A painter draws a graph step by step.  The nodes of the graph are listed  *)
(* in an arbitrary order; a painter that takes the k-th value of the         *)
(* assignment for the k-th listed node (By = "place") paints a wrong         *)
(* picture, one that looks up the value of the node (By = "node") never.     *)
EXTENDS Drawing
CONSTANTS N, By, Ks
VARIABLES app, t, x, ord, pic, todo
vars == <<app, t, x, ord, pic, todo>>
Orders == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
AllPairs == {e \in SUBSET (1..N) : Cardinality(e) = 2}
One == [i \in 1..N |-> [j \in 1..N |-> 1]]
Empty == [labels |-> <<>>, markers |-> <<>>, edges |-> <<>>, marks |-> <<>>]
Inst(a, E, k) == IF a = "maxcut" THEN [n |-> N, edges |-> LET s == SetToSeq(E) IN [i \in 1..Len(s) |->
                                       LET u == CHOOSE u \in s[i] : \A v \in s[i] : u <= v IN [u |-> u, v |-> CHOOSE v \in s[i] : v # u, w |-> 1]]]
                 ELSE [n |-> N, edges |-> <<>>, W |-> One, K |-> k, d |-> 1]
Init == app = "" /\ t = <<>> /\ x = <<>> /\ ord \in Orders /\ pic = Empty /\ todo = <<>>
Choose == /\ app = ""
          /\ \/ \E E \in SUBSET AllPairs : app' = "maxcut" /\ t' = Inst("maxcut", E, 0)
             \/ app' = "tsp" /\ t' = Inst("tsp", {}, 0)
             \/ \E k \in Ks : app' = "vrp" /\ t' = Inst("vrp", {}, k)
          /\ UNCHANGED <<x, ord, pic, todo>>
Pick1 == /\ app # "" /\ x = <<>>
         /\ \E y \in AllBits(AppVars(app, t)) : AppObject(app, t, y) /\ x' = y
         /\ UNCHANGED <<app, t, ord, pic, todo>>
Graph == IF app \in Colored THEN {{t.edges[k].u, t.edges[k].v} : k \in 1..Len(t.edges)} ELSE AllPairs
Node == /\ x # <<>> /\ Len(pic.labels) < N
        /\ LET k == Len(pic.labels) + 1 IN
           pic' = [pic EXCEPT !.labels = Append(@, [node |-> ord[k], x |-> k, y |-> 0]),
                              !.markers = Append(@, [node |-> ord[k], c |-> IF app \notin Colored THEN 7
                                                       ELSE IF By = "node" THEN x[ord[k]] ELSE x[k]])]
        /\ UNCHANGED <<app, t, x, ord, todo>>
Edges == /\ x # <<>> /\ Len(pic.labels) = N /\ pic.edges = <<>> /\ Graph # {} /\ todo = <<>>
         /\ LET s == SetToSeq(Graph) IN pic' = [pic EXCEPT !.edges = [i \in 1..Len(s) |->
               LET u == CHOOSE u \in s[i] : TRUE IN [u |-> u, v |-> CHOOSE v \in s[i] : v # u]]]
         /\ todo' = IF app = "tsp" THEN <<[k \in 1..N |-> <<TourOf(N, x)[k], TourOf(N, x)[IF k = N THEN 1 ELSE k + 1]>>]>>
                    ELSE IF app = "vrp" THEN SetToSeq(RoutesOf(t, x)) ELSE <<>>
         /\ UNCHANGED <<app, t, x, ord>>
Mark == /\ todo # <<>>
        /\ pic' = [pic EXCEPT !.marks = @ \o [k \in 1..Len(todo[1]) |-> [u |-> todo[1][k][1], v |-> todo[1][k][2], c |-> Len(todo)]]]
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<app, t, x, ord>>
Next == Choose \/ Pick1 \/ Node \/ Edges \/ Mark
Spec == Init /\ [][Next]_vars
Done == x # <<>> /\ Len(pic.labels) = N /\ (Graph = {} \/ pic.edges # <<>>) /\ todo = <<>>
Shown == Done => NodesShown(N, pic) /\ EdgesShown(Graph, pic) /\ PictureOf(app, t, x, pic)
\* what is seen determines the object up to what a picture cannot tell: sides and directions
Faithful == Done => LET E == Pairs(pic.marks) IN
   CASE app = "maxcut" -> \A y \in AllBits(N) : SidesShown(y, pic) => y \in {x, [i \in 1..N |-> 1 - x[i]]}
     [] app = "tsp" -> \A i \in 1..N : N > 2 => Cardinality({e \in E : i \in e}) = 2
     [] OTHER -> \A i \in 2..N : Cardinality({e \in E : i \in e}) \in {1, 2}
=============================================================================
