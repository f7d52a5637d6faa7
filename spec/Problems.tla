------------------------------ MODULE Problems ------------------------------
(* A benchmark problem together with the front it declares, observed through        *)
(* evaluations.  Values are whole numbers of some small unit.                        *)
(*   sound    - no point of the box dominates a declared point (by more than eps     *)
(*              in every objective), the declared points do not dominate each other  *)
(*   attained - every declared point is reached by some point of the box             *)
(*   complete - no point of the box goes beyond the declared front by more than its  *)
(*              mesh, and the best value of every objective is declared              *)
(*   pure     - evaluation depends on the point alone and leaves it as it was        *)
(* ProblemsMC shows that these rules alarm on exactly the problems whose front is    *)
(* not the true one, whatever the order of the evaluations, and that evaluations     *)
(* that another one weakly dominates need not be looked at.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Idx(p) == 1..Len(p)
WeaklyBelow(v, p, tol) == \A i \in Idx(p) : v[i] <= p[i] + tol
FarBelow(v, p, eps) == \A i \in Idx(p) : v[i] < p[i] - eps
Dominating(q, p, tol) == (\A i \in Idx(p) : q[i] <= p[i]) /\ (\E i \in Idx(p) : q[i] < p[i] - tol)

\* what one evaluated vector says about the declared set F
Beats(F, v, eps) == \E p \in F : FarBelow(v, p, eps)
Beyond(F, v, mesh) == \A p \in F : ~WeaklyBelow(p, v, mesh)
\* what a set V of evaluated vectors says
Unattained(F, V, tol) == {p \in F : \A v \in V : ~WeaklyBelow(v, p, tol)}
BestOf(V, i) == CHOOSE x \in {v[i] : v \in V} : \A v \in V : x <= v[i]
ExtremeMissing(F, best, tol) == \E i \in Idx(best) : \A p \in F : p[i] > best[i] + tol
FrontFaults(F, m, eps) ==
  (IF F = {} THEN {"no-front"} ELSE {}) \cup
  (IF \E p \in F : Len(p) # m THEN {"front-of-other-dimension"}
   ELSE IF \E p \in F : \E q \in F : Dominating(q, p, eps) THEN {"front-dominates-itself"} ELSE {})
ValueFaults(F, v, eps, mesh) ==
  (IF Beats(F, v, eps) THEN {"front-is-dominated"} ELSE {}) \cup
  (IF Beyond(F, v, mesh) THEN {"front-is-incomplete"} ELSE {})

\* cfg: m objectives, eps, tol, mesh, ext (whether the declared front claims to be attained and complete: full)
InitSt(cfg) == [c |-> cfg, F |-> {}, best |-> <<>>, left |-> {}, n |-> 0]
Lower(b, v) == IF b = <<>> THEN v ELSE [i \in Idx(v) |-> IF v[i] < b[i] THEN v[i] ELSE b[i]]
\* events: front (pts, dims: all bounds are ordered), val (v, real, pure, kept)
Viol(st, e) ==
  IF e.k = "front"
  THEN FrontFaults(Range(e.pts), st.c.m, st.c.eps) \cup (IF ~e.dims THEN {"box-without-points"} ELSE {})
  ELSE (IF ~e.real THEN {"value-is-not-a-finite-number"} ELSE
        IF st.c.full THEN ValueFaults(st.F, e.v, st.c.eps, st.c.mesh)
        ELSE ValueFaults(st.F, e.v, st.c.eps, st.c.mesh) \cap {"front-is-dominated"}) \cup
       (IF ~e.pure THEN {"value-changes"} ELSE {}) \cup
       (IF ~e.kept THEN {"argument-changed"} ELSE {})
Apply(st, e) ==
  IF e.k = "front" THEN [st EXCEPT !.F = Range(e.pts), !.left = Range(e.pts)]
  ELSE [st EXCEPT !.n = @ + 1, !.best = Lower(@, e.v), !.left = {p \in @ : ~WeaklyBelow(e.v, p, st.c.tol)}]
Complete(st) ==
  (IF st.n = 0 THEN {"nothing-observed"} ELSE {}) \cup
  (IF st.n > 0 /\ st.c.full THEN
     (IF st.left # {} THEN {"front-not-attained"} ELSE {}) \cup
     (IF ExtremeMissing(st.F, st.best, st.c.ext) THEN {"extreme-left-out"} ELSE {})
   ELSE {})
=============================================================================
