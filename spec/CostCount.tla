----------------------------- MODULE CostCount -----------------------------
(* What an algorithm may charge.  It submits candidates for evaluation; a          *)
(* candidate found in the cache supplied to it is free, every other candidate is    *)
(* charged exactly once; looking at its population charges nothing.                 *)
(* In mode "each" the algorithm evaluates a candidate exactly once, so the charge   *)
(* is the number of evaluations; in mode "distinct" it may evaluate a candidate     *)
(* again and again, so the charge is the number of different candidates; mode       *)
(* "both" demands the two at once (all candidates of the run are different).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: mode
InitSt(cfg) == [mode |-> cfg.mode, cost |-> 0, seen |-> {}]

\* e.evals: sequence of <<candidate, in-cache flag (0/1)>> in order of evaluation, e.counts: calls per objective
Paid(e) == SelectSeq(e.evals, LAMBDA x : x[2] = 0)
NewOnes(st, e) == {x[1] : x \in {e.evals[i] : i \in 1..Len(e.evals)}} \ st.seen
NewPaid(st, e) == {Paid(e)[i][1] : i \in 1..Len(Paid(e))} \ st.seen

Viol(st, e) ==
  (IF e.cost < st.cost THEN {"cost-decreased"} ELSE {}) \cup
  (IF e.k = "read" THEN
      (IF e.cost # st.cost THEN {"reading-charged"} ELSE {}) \cup
      (IF NewOnes(st, e) # {} THEN {"reading-evaluated-new-candidates"} ELSE {}) \cup
      (IF \E i \in 1..Len(e.fin) : e.fin[i] \notin st.seen THEN {"final-candidate-never-evaluated"} ELSE {})
   ELSE
   (IF st.mode \in {"each", "both"} /\ e.cost - st.cost # Len(Paid(e))
      THEN {"charge-is-not-the-number-of-evaluations"} ELSE {}) \cup
   (IF st.mode \in {"each", "both"} /\ \E j \in 1..Len(e.counts) : e.counts[j] # Len(e.evals)
      THEN {"objectives-evaluated-unequally"} ELSE {}) \cup
   (IF st.mode \in {"distinct", "both"} /\ e.cost - st.cost # Cardinality(NewPaid(st, e))
      THEN {"charge-is-not-the-number-of-new-candidates"} ELSE {}))

Apply(st, e) == [st EXCEPT !.cost = e.cost, !.seen = @ \cup NewOnes(st, e)]
Complete(st) == {}
=============================================================================
