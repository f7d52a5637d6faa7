------------------------------ MODULE StepRun ------------------------------
(* The stepping contract of an algorithm object: direct steps, n-step runs and   *)
(* budgeted runs may be mixed; every step yields exactly one report, numbered     *)
(* consecutively over the object's lifetime and carrying the cost and the         *)
(* population of that moment.  A step that fails yields no report and uses up no  *)
(* number.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(cfg) == [n |-> 0,                \* reports delivered
                cost |-> cfg.cost0,
                op |-> "idle", arg |-> 0, done |-> 0,   \* the call in progress, steps it has made
                open |-> FALSE,         \* a step finished whose report is still due
                failed |-> FALSE,       \* the call in progress saw a failing step
                pops |-> cfg.pops]      \* reports must carry a population

MayStep(st) == CASE st.op = "next"   -> st.done = 0
                 [] st.op = "steps"  -> st.done < st.arg
                 [] st.op = "budget" -> st.cost < st.arg
                 [] OTHER -> FALSE

CallViol(st, e) == IF st.op # "idle" THEN {"nested-call"} ELSE {}
StepViol(st, e) ==
  (IF st.op = "idle" THEN {"step-without-call"} ELSE
   (IF st.open THEN {"second-step-before-report"} ELSE {}) \cup
   (IF st.failed THEN {"step-after-failure"} ELSE {}) \cup
   (IF ~MayStep(st) THEN {"too-many-steps"} ELSE {})) \cup
  (IF e.c1 < st.cost THEN {"cost-decreased"} ELSE {})
MsgViol(st, e) ==
  (IF ~st.open THEN {"report-without-step"} ELSE {}) \cup
  (IF e.no # st.n THEN {"report-number"} ELSE {}) \cup
  (IF e.cost # st.cost THEN {"report-cost-is-not-the-cost-charged"} ELSE {}) \cup
  (IF e.cost # e.live THEN {"report-cost-is-not-current"} ELSE {}) \cup
  (IF st.pops /\ ~e.haspop THEN {"report-without-population"} ELSE {}) \cup
  (IF e.haspop /\ e.pop # e.cur THEN {"report-population-is-not-current"} ELSE {})
RetViol(st, e) ==
  IF e.ok = FALSE THEN (IF st.failed THEN {} ELSE {"call-failed"})
  ELSE (IF st.failed THEN {"failure-swallowed"} ELSE {}) \cup
       (IF st.open THEN {"step-not-reported"} ELSE {}) \cup
       (IF MayStep(st) THEN {"too-few-steps"} ELSE {})

Viol(st, e) ==
  CASE e.k = "call" -> CallViol(st, e)
    [] e.k = "step" -> StepViol(st, e)
    [] e.k = "fail" -> StepViol(st, [c1 |-> st.cost])
    [] e.k = "msg" -> MsgViol(st, e)
    [] e.k = "ret" -> RetViol(st, e)
    [] OTHER -> {"unexpected-" \o e.k}

Apply(st, e) ==
  CASE e.k = "call" -> [st EXCEPT !.op = e.op, !.arg = e.arg, !.done = 0, !.open = FALSE, !.failed = FALSE]
    [] e.k = "step" -> [st EXCEPT !.done = @ + 1, !.open = TRUE, !.cost = e.c1]
    [] e.k = "fail" -> [st EXCEPT !.done = @ + 1, !.failed = TRUE]
    [] e.k = "msg" -> [st EXCEPT !.n = @ + 1, !.open = FALSE]
    [] e.k = "ret" -> [st EXCEPT !.op = "idle", !.open = FALSE]
    [] OTHER -> st

Complete(st) == IF st.op = "idle" THEN {} ELSE {"call-never-returned"}
=============================================================================
