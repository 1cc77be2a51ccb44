------------------------------- MODULE MCSubst -------------------------------
(* For every small program and substitution: the substituted polynomials,    *)
(* bounds and status mean the same as the original program at the full       *)
(* assignment, at every assignment of the kept variables.                    *)
EXTENDS Subst
VARIABLES p, sub, phase
Vr(nm, b) == [name |-> nm, type |-> "I", lb |-> b[1], ub |-> b[2]]
Bd == {<<-2, 2>>, <<0, 1>>, <<1, 3>>}
Prog(b1, b2, b3, l, qd, s, r) ==
  [S |-> 1, vars |-> <<Vr("a", b1), Vr("b", b2), Vr("c", b3)>>, sense |-> 1, const |-> 3, lin |-> l,
   quad |-> qd, lc |-> <<[name |-> "l", lin |-> l, sense |-> s, rhs |-> r]>>,
   qc |-> <<[name |-> "q", lin |-> <<1, 0, -1>>, quad |-> qd, sense |-> s, rhs |-> r]>>]
Keep == [kind |-> "keep", j |-> 0, f |-> 0, v |-> 0]
Alts(i) == {Keep} \cup {[kind |-> "const", j |-> 0, f |-> 0, v |-> v] : v \in {-2, 0, 1}}
              \cup {[kind |-> "var", j |-> j, f |-> f, v |-> 0] : j \in 1..3, f \in {-4, 1}}
Init == /\ \E b1 \in Bd, b2 \in {<<-2, 2>>, <<1, 3>>}, l \in {<<1, -1, 2>>, <<1, 1, 0>>}, qd \in {<<<<0, 2, 0>>, <<1, 0, 0>>, <<0, 0, -1>>>>, <<<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 0, 0>>>>},
              s \in {"LE", "EQ"}, r \in {-1, 0} : p = Prog(b1, b2, <<0, 2>>, l, qd, s, r)
        /\ sub \in Alts(1) \X Alts(2) \X Alts(3)
        /\ WellFormedSub(sub) /\ Kept(sub) # <<>> /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<p, sub>>
Spec == Init /\ [][Next]_<<p, sub, phase>>
Ys == [1..Len(Kept(sub)) -> {-3, -1, 0, 1, 2}]
U == p.S * F * F
PolyAt(q, y) == q.const + Dot(q.lin, y) + Quad(q.quad, y)
ObjectiveKept == phase = 1 => \A y \in Ys : PolyAt(SubPoly(3, sub, p.const, p.lin, p.quad), y) = ObjX(p, FullPoint(sub, y, 1), F)
FeasibleDst(y) == /\ SubStatus(p, sub) = "VALID"
                  /\ \A k \in 1..Len(Kept(sub)) : Lo(p, sub, Kept(sub)[k]) <= y[k] * U /\ y[k] * U <= Hi(p, sub, Kept(sub)[k])
                  /\ \A k \in 1..Len(AllCons(p)) : LET sc == SubCons(p, sub)[k] IN Holds(sc.sense, PolyAt(sc.poly, y), 0)
FeasibilityKept == phase = 1 => \A y \in Ys : FeasibleDst(y) <=> FeasibleX(p, FullPoint(sub, y, 1), F)
=============================================================================
