------------------------------ MODULE DistStep ------------------------------
(* What the caller of the distributed strategy may rely on, whatever the schedule       *)
(* (DistHgs is the protocol that delivers it).  Cost modifiers are in eighths.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitSt(cfg) == [cfg |-> cfg, total |-> 0, acct |-> <<>>, steps |-> 0]
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) \cup Rng(b) : Count(a, x) = Count(b, x)
Acct(st, i) == IF i <= Len(st.acct) THEN st.acct[i] ELSE 0
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Weighted(st, e, i) == st.cfg.mod8[e.lvl[i] + 1] * (e.costs[i] - Acct(st, i))
StepViol(st, e) ==
  LET D == 1..Len(e.costs)  ran == {i \in D : e.steps[i] > 0} IN
  (IF \E q \in 1..Len(e.answers) : e.answers[q] = 0 THEN {"request-not-answered"} ELSE {}) \cup
  (IF \E q \in 1..Len(e.answers) : e.answers[q] > 1 THEN {"request-answered-more-than-once"} ELSE {}) \cup
  (IF \E i \in D : e.due[i] /\ e.steps[i] < st.cfg.len[e.lvl[i] + 1] THEN {"living-deme-skipped-its-metaepoch"} ELSE {}) \cup
  (IF \E i \in D : e.steps[i] > (IF e.due[i] THEN st.cfg.len[e.lvl[i] + 1] ELSE 0) THEN {"deme-ran-too-much"} ELSE {}) \cup
  (IF ~e.settled THEN {"step-returned-before-a-deme-did-its-part"} ELSE {}) \cup
  (IF ran # {} /\ e.cost8 # st.total + MaxOf({Weighted(st, e, i) : i \in ran}) THEN {"cost-did-not-grow-by-the-largest-weighted-cost"} ELSE {}) \cup
  (IF e.msg8 # e.cost8 THEN {"reported-cost-is-not-the-cost"} ELSE {})
Viol(st, e) ==
  CASE e.k = "dstep" -> StepViol(st, e)
    [] e.k = "dpop" -> (IF ~SameBag(e.final, Flatten(e.pops)) THEN {"population-is-not-the-union-of-all-demes"} ELSE {}) \cup
                       (IF \E q \in 1..Len(e.answers) : e.answers[q] # 1 THEN {"request-not-answered-exactly-once"} ELSE {})
    [] OTHER -> {"unexpected-" \o e.k}
Apply(st, e) ==
  CASE e.k = "dstep" -> [st EXCEPT !.total = e.cost8, !.steps = @ + 1,
                         !.acct = [i \in 1..Len(e.costs) |-> IF e.steps[i] > 0 THEN e.costs[i] ELSE Acct(st, i)]]
    [] OTHER -> st
Complete(st) == IF st.steps = 0 THEN {"nothing-observed"} ELSE {}
=============================================================================
