------------------------------- MODULE Swarm --------------------------------
(* The two archives of the particle swarm: a bounded archive of leaders ordered by    *)
(* plain dominance and an unbounded result archive ordered by dominance with a        *)
(* multiplicative tolerance num/den.                                                   *)
EXTENDS Pareto

EtaDom(num, den, a, b) == /\ \A j \in 1..Len(a) : a[j] * den <= b[j] * num
                          /\ \E j \in 1..Len(a) : a[j] * den < b[j] * num
InitSt(cfg) == [cap |-> cfg.cap, num |-> cfg.num, den |-> cfg.den, lead |-> <<>>, arch |-> <<>>,
                seen |-> {}, full |-> FALSE, n |-> 0]
Of(st, who) == IF who = "leaders" THEN st.lead ELSE st.arch
Dom(st, who, a, b) == IF who = "leaders" THEN Dominates(a, b) ELSE EtaDom(st.num, st.den, a, b)
\* why a candidate may be refused, why a member may be evicted
Refusers(st, who, p) == {m \in Rng(Of(st, who)) : m = p \/ Dom(st, who, m, p)}
Victims(st, who, p) == {m \in Rng(Of(st, who)) : m # p /\ Dom(st, who, p, m)}

\* the invariant of one archive
Inner(st, who, S) ==
   (IF \E i, j \in 1..Len(S) : i # j /\ S[i] = S[j] THEN {who \o "-equal-members"} ELSE {}) \cup
   (IF \E i, j \in 1..Len(S) : i # j /\ S[i] # S[j] /\ Dom(st, who, S[i], S[j]) THEN {who \o "-member-dominates-member"} ELSE {}) \cup
   (IF who = "leaders" /\ Len(S) > st.cap THEN {"more-leaders-than-particles"} ELSE {})

\* one insertion: p offered, acc its answer, after the contents afterwards
OfferViol(st, e) ==
  LET old == Rng(Of(st, e.who))  new == Rng(e.after)
      gone == old \ new
      vic == Victims(st, e.who, e.p)  ref == Refusers(st, e.who, e.p)
      \* a leader archive over its bound drops one member
      over == e.who = "leaders" /\ e.acc /\ Cardinality((old \ vic) \cup {e.p}) > st.cap IN
  Inner(st, e.who, e.after) \cup
  (IF (new \ old) \ {e.p} # {} THEN {e.who \o "-member-from-nowhere"} ELSE {}) \cup
  (IF ~e.acc /\ ref = {} THEN {e.who \o "-refused-without-reason"} ELSE {}) \cup
  (IF e.acc /\ ref # {} THEN {e.who \o "-accepted-a-dominated-or-equal-candidate"} ELSE {}) \cup
  (IF e.acc /\ e.p \notin new /\ ~over THEN {e.who \o "-accepted-but-absent"} ELSE {}) \cup
  (IF ~e.acc /\ e.p \in new \ old THEN {e.who \o "-refused-but-present"} ELSE {}) \cup
  (IF e.acc /\ \E m \in vic : m \in new THEN {e.who \o "-dominated-member-stays"} ELSE {}) \cup
  (IF Cardinality((gone \ vic) \cup (IF e.acc /\ e.p \notin new THEN {e.p} ELSE {})) > (IF over THEN 1 ELSE 0)
     THEN {e.who \o "-evicted-without-reason"} ELSE {})

\* the state of a running swarm: leaders and archive (true objectives of the stored positions), everything evaluated so far.
\* Objective vectors lie on a grid coarser than the tolerance, so that EtaDom is transitive there.
WeakEta(st, a, b) == \A j \in 1..Len(a) : a[j] * st.den <= b[j] * st.num
StepViol(st, e) ==
  LET seen == st.seen \cup Rng(e.evals) IN
  Inner(st, "leaders", e.lead) \cup Inner(st, "archive", e.arch) \cup
  (IF (Rng(e.lead) \cup Rng(e.arch)) \ seen # {} THEN {"member-never-evaluated"} ELSE {}) \cup
  (IF \E p \in seen : ~\E m \in Rng(e.arch) : WeakEta(st, m, p) THEN {"archive-misses-an-undominated-candidate"} ELSE {}) \cup
  (IF Cardinality(Minimal(seen)) <= st.cap /\ e.chain /\ \E p \in seen : ~\E m \in Rng(e.lead) : m = p \/ Dominates(m, p)
     THEN {"leaders-miss-an-undominated-candidate"} ELSE {})

Viol(st, e) ==
  CASE e.k = "offer" -> OfferViol(st, e)
    [] e.k = "swarm" -> StepViol(st, e)
    [] OTHER -> {"unexpected-" \o e.k}
Apply(st, e) ==
  CASE e.k = "offer" -> IF e.who = "leaders" THEN [st EXCEPT !.lead = e.after, !.n = @ + 1] ELSE [st EXCEPT !.arch = e.after, !.n = @ + 1]
    [] e.k = "swarm" -> [st EXCEPT !.seen = @ \cup Rng(e.evals), !.n = @ + 1]
Complete(st) == IF st.n = 0 THEN {"nothing-observed"} ELSE {}
=============================================================================
