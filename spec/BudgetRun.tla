----------------------------- MODULE BudgetRun -----------------------------
(* A budgeted run: the algorithm steps while its cost is below the current    *)
(* budget; on reaching a budget a checkpoint of the final population is stored. *)
(* Viol(st, e) is the set of names of clauses the event e breaks in state st,   *)
(* Apply(st, e) the successor.  The design model below steps only through       *)
(* events with Viol = {}; the trace module feeds recorded events to the same    *)
(* operators.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(cfg) == [bud |-> cfg.budgets,          \* ascending, without repetitions
                i |-> 1 + Cardinality({j \in 1..Len(cfg.budgets) : cfg.budgets[j] <= cfg.cost0}),
                cost |-> cfg.cost0, steps |-> 0,
                ck |-> [j \in {x \in 1..Len(cfg.budgets) : cfg.budgets[x] <= cfg.cost0} |-> [at |-> 0, cost |-> cfg.cost0]],
                finals |-> {},                 \* <<steps, population>> handed out by the algorithm
                ended |-> FALSE, checked |-> FALSE]

Reached(st, c) == {j \in st.i..Len(st.bud) : st.bud[j] <= c}

StepViol(st, e) ==
  (IF st.ended THEN {"step-after-end"} ELSE {}) \cup
  (IF st.i > Len(st.bud) THEN {"step-after-last-budget"} ELSE
     IF ~(st.cost < st.bud[st.i]) THEN {"step-at-or-above-budget"} ELSE {}) \cup
  (IF e.c0 # st.cost THEN {"cost-changed-outside-steps"} ELSE {}) \cup
  (IF e.c1 < e.c0 THEN {"cost-decreased"} ELSE {})

FileViol(st, f) ==
  LET js == {j \in 1..Len(st.bud) : st.bud[j] = f.name} IN
  IF js = {} THEN {"file-for-unrequested-budget"} ELSE
  LET j == CHOOSE x \in js : TRUE IN
  IF j \notin DOMAIN st.ck THEN {"checkpoint-before-budget-reached"} ELSE
  (IF f.cost # st.ck[j].cost THEN {"stored-cost-not-cost-at-budget"} ELSE {}) \cup
  (IF <<st.ck[j].at, f.pop>> \notin st.finals THEN {"stored-population-not-final-population"} ELSE {}) \cup
  (IF f.fit # f.truefit THEN {"stored-objectives-not-true-objectives"} ELSE {})

FilesViol(st, e) ==
  (IF ~st.ended THEN {"files-before-end"} ELSE {}) \cup
  UNION {FileViol(st, e.files[k]) : k \in 1..Len(e.files)} \cup
  (IF \E j \in 1..Len(st.bud) : Cardinality({k \in 1..Len(e.files) : e.files[k].name = st.bud[j]}) # 1
     THEN {"not-exactly-one-file-per-budget"} ELSE {})

Viol(st, e) ==
  CASE e.k = "step" -> StepViol(st, e)
    [] e.k = "final" -> (IF e.c1 # st.cost THEN {"cost-changed-by-reading"} ELSE {})
    [] e.k = "end" -> (IF e.ok # TRUE THEN {"run-failed"} ELSE {}) \cup
                      (IF st.i <= Len(st.bud) THEN {"ended-before-last-budget"} ELSE {})
    [] e.k = "files" -> FilesViol(st, e)
    [] OTHER -> {"unexpected-" \o e.k}

Apply(st, e) ==
  CASE e.k = "step" ->
        LET r == Reached(st, e.c1) IN
        [st EXCEPT !.cost = e.c1, !.steps = @ + 1, !.i = @ + Cardinality(r),
                   !.ck = [j \in (DOMAIN st.ck) \cup r |->
                             IF j \in r THEN [at |-> st.steps + 1, cost |-> e.c1] ELSE st.ck[j]]]
    [] e.k = "final" -> [st EXCEPT !.finals = @ \cup {<<st.steps, e.pop>>}]
    [] e.k = "end" -> [st EXCEPT !.ended = TRUE]
    [] e.k = "files" -> [st EXCEPT !.checked = TRUE]
    [] OTHER -> st

\* the trace must reach the end of a run and its files
Complete(st) == (IF st.ended THEN {} ELSE {"run-never-ended"}) \cup (IF st.checked THEN {} ELSE {"files-not-checked"})
=============================================================================
