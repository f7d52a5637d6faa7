----------------------------- MODULE ProblemsMC -----------------------------
(* Every problem of a small family: position a in 0..K, distance d in 0..D, value      *)
(* <<a, K - a>> plus a penalty that depends on d and on the objective; any set of      *)
(* points may be declared.  Evaluations come in any order.                              *)
EXTENDS Problems
CONSTANTS K, D, Mesh, Neg, NoOrder
VARIABLES pen, decl, seen, st
vars == <<pen, decl, seen, st>>
\* negative control (NoOrder): only the last evaluation counts for what is attained
Val(a, d) == <<a + pen[d][1], K - a + pen[d][2]>>
Pts == {<<a, d>> : a \in 0..K, d \in 0..D}
V == {Val(x[1], x[2]) : x \in Pts}
Cfg == [m |-> 2, eps |-> 0, tol |-> 0, mesh |-> Mesh, ext |-> 0, full |-> TRUE]
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Cand == {<<x, y>> : x \in 0..K, y \in 0..K}
Small(S) == Cardinality(S) <= 3
Front(F) == [k |-> "front", pts |-> AsSeq(F), dims |-> TRUE]
Init == /\ pen \in [0..D -> {<<i, j>> : i \in (0-Neg)..1, j \in (0-Neg)..1}]
        /\ decl \in {F \in SUBSET {p \in Cand : p[1] + p[2] \in (K - 1)..(K + 1)} : F # {} /\ Small(F)}
        /\ Viol(InitSt(Cfg), Front(decl)) = {}
        /\ seen = {} /\ st = Apply(InitSt(Cfg), Front(decl))
Ev(x) == [k |-> "val", v |-> Val(x[1], x[2]), real |-> TRUE, pure |-> TRUE, kept |-> TRUE]
Next == \E x \in Pts \ seen :
          /\ Viol(st, Ev(x)) = {}
          /\ seen' = seen \cup {x}
          /\ st' = IF NoOrder /\ seen # {} THEN [Apply(st, Ev(x)) EXCEPT !.left = Unattained(decl, {Val(x[1], x[2])}, 0)] ELSE Apply(st, Ev(x))
          /\ UNCHANGED <<pen, decl>>
Spec == Init /\ [][Next]_vars
\* the truth about the declared set, from the definition of the front over the whole box
ParetoOf(S) == {v \in S : ~\E w \in S : w # v /\ WeaklyBelow(w, v, 0)}
Truth ==
  LET P == ParetoOf(V) IN
  /\ \A p \in decl : \E v \in V : WeaklyBelow(v, p, 0)
  /\ \A p \in decl : ~\E v \in V : FarBelow(v, p, 0)
  /\ \A v \in P : \E p \in decl : WeaklyBelow(p, v, Mesh)
  /\ \A i \in 1..2 : \E p \in decl : p[i] = BestOf(V, i)
Faulty == \E x \in Pts : Viol(st, Ev(x)) # {}
\* once everything has been evaluated the verdict is the truth
Decides == seen = Pts => ((Complete(st) = {}) <=> Truth)
\* an alarm before the end is never false, a true front never stops the evaluations
NoFalseAlarm == Truth => ~Faulty
\* what has been attained, and the best values, are those of what has been seen
History == seen # {} => LET W == {Val(x[1], x[2]) : x \in seen} IN
  /\ st.left = Unattained(decl, W, 0) /\ \A i \in 1..2 : st.best[i] = BestOf(W, i)
\* evaluations weakly dominated by one already seen need not be looked at
Skip == \A x \in Pts : \A y \in seen : WeaklyBelow(Val(y[1], y[2]), Val(x[1], x[2]), 0) =>
          /\ Viol(st, Ev(x)) = {}
          /\ Apply(st, Ev(x)).left = st.left /\ Apply(st, Ev(x)).best = st.best
=============================================================================
