---------------------------- MODULE MCInstances ----------------------------
(* Readers as state machines: the lines of a file arrive in any order and    *)
(* the result is the graph the file describes.                               *)
EXTENDS Instances
CONSTANTS N, MaxLines
VARIABLES file, left, mat
EdgeLines == {[a |-> a, b |-> b, w |-> w - 1] : a, b \in 1..N, w \in {0, 2}}
Simple(f) == \A k \in 1..Len(f) : f[k].a # f[k].b /\ \A l \in 1..Len(f) : k # l => {f[k].a, f[k].b} # {f[l].a, f[l].b}
Files == {f \in UNION {[1..m -> EdgeLines] : m \in 0..MaxLines} : Simple(f)}
Init == file \in Files /\ left = DOMAIN file /\ mat = ZeroMat(N)
Read == \E k \in left : left' = left \ {k} /\ mat' = ReadEdge(mat, file[k]) /\ UNCHANGED file
Spec == Init /\ [][Read]_<<file, left, mat>>
Faithful == left = {} => mat = EdgeMatrix(N, file)
Symmetric == \A i, j \in 1..N : mat[i][j] = mat[j][i] /\ mat[i][i] = 0
\* rounding to the nearest integer is possible, and unique away from halves
RoundingOK == \A d2 \in 0..60 : LET R == {d \in 0..9 : Rounded(d, d2)} IN R # {} /\ (Cardinality(R) > 1 <=> \E d \in 0..9 : d2 = (2 * d + 1) * (2 * d + 1))
=============================================================================
