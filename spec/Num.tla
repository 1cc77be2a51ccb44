-------------------------------- MODULE Num --------------------------------
(* Integer arithmetic shared by all modules.  Real quantities are integers   *)
(* in units of 1/S for a scale S chosen per recorded case.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

INF == 1000000000          \* stands for an infinite bound

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
SumFn(f, D) == FoldSet(LAMBDA i, acc : f[i] + acc, 0, D)
Dot(u, v) == SumSeq([i \in 1..Len(u) |-> u[i] * v[i]])
Quad(m, x) == SumSeq([i \in 1..Len(m) |-> IF x[i] = 0 THEN 0 ELSE x[i] * Dot(m[i], x)])
Zeros(n) == [i \in 1..n |-> 0]
ZeroMat(n) == [i \in 1..n |-> Zeros(n)]
PadVec(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
PadMat(m, n) == [i \in 1..n |-> [j \in 1..n |-> IF i <= Len(m) THEN (IF j <= Len(m[i]) THEN m[i][j] ELSE 0) ELSE 0]]
\* the upper-triangular matrix denoting the same quadratic form
Triu(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |->
              IF i = j THEN m[i][i] ELSE IF i < j THEN m[i][j] + m[j][i] ELSE 0]]
Unit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
Range1(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
CeilDiv(a, b) == -((-a) \div b)          \* b > 0
RECURSIVE BitsLE(_, _)                     \* little-endian binary expansion
BitsLE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o BitsLE(v \div 2, n - 1)
AllBits(n) == {BitsLE(v, n) : v \in 0..(Pow2(n) - 1)}
\* Cartesian product of a sequence of sets, as a set of sequences
RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>}
            ELSE LET rest == Prod(Tail(ss)) IN {<<v>> \o r : v \in Head(ss), r \in rest}
=============================================================================
