------------------------------ MODULE TimeRun ------------------------------
(* A timed run: steps are timed; at every multiple of the sampling step that   *)
(* the accumulated step time has passed, one report is due, carrying the        *)
(* progress of the step before the one that just ended.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* times are in units (quarter seconds, or smaller binary fractions); cfg: step, timeout, auto (reports not observed one by one)
InitSt(cfg) == [k |-> cfg.step, T |-> cfg.timeout, auto |-> cfg.auto,
                elapsed |-> 0, n |-> 0,            \* n: steps finished
                last |-> 0,                         \* last slot reported
                prog |-> <<>>,                      \* progress <<no, cost>> of each finished step
                emitted |-> <<>>,                   \* <<time, steps finished>>
                finals |-> {}, ended |-> FALSE, checked |-> ~cfg.auto]

\* last slot that is due: nothing is due before a second step has finished
DueLast(st) == IF st.n < 2 THEN 0
               ELSE (IF st.elapsed < st.T THEN st.elapsed ELSE st.T) \div st.k

StepViol(st, e) ==
  (IF st.ended THEN {"step-after-end"} ELSE {}) \cup
  (IF st.elapsed >= st.T THEN {"step-begun-after-timeout"} ELSE {}) \cup
  (IF ~st.auto /\ st.last < DueLast(st) THEN {"due-report-missing-before-next-step"} ELSE {}) \cup
  (IF e.no # st.n THEN {"step-number"} ELSE {})

EmitViol(st, e) ==
  (IF st.n < 2 THEN {"report-before-a-previous-result"} ELSE
     IF <<e.no, e.cost>> # st.prog[st.n - 1] THEN {"report-carries-wrong-progress"} ELSE {}) \cup
  (IF e.time # (st.last + 1) * st.k THEN {"report-time-not-next-multiple"} ELSE {}) \cup
  (IF e.time > st.T THEN {"report-beyond-timeout"} ELSE {}) \cup
  (IF e.time > st.elapsed THEN {"report-ahead-of-elapsed-time"} ELSE {})

EndViol(st, e) ==
  (IF st.elapsed < st.T THEN {"ended-before-timeout"} ELSE {}) \cup
  (IF ~st.auto /\ st.last < DueLast(st) THEN {"due-report-missing-at-end"} ELSE {}) \cup
  (IF ~e.ok /\ ~(st.auto /\ st.emitted = <<>>) THEN {"run-failed"} ELSE {})

FileViol(st, f) ==
  LET js == {j \in 1..Len(st.emitted) : st.emitted[j][1] = f.name} IN
  IF js = {} THEN {"file-for-no-report"} ELSE
  LET j == CHOOSE x \in js : TRUE IN
  (IF <<st.emitted[j][2], f.pop>> \notin st.finals THEN {"stored-population-not-final-population"} ELSE {}) \cup
  (IF f.cost # st.prog[st.emitted[j][2]][2] THEN {"stored-cost-not-cost-at-that-moment"} ELSE {}) \cup
  (IF f.fit # f.truefit THEN {"stored-objectives-not-true-objectives"} ELSE {})

FilesViol(st, e) ==
  UNION {FileViol(st, e.files[i]) : i \in 1..Len(e.files)} \cup
  (IF \E j \in 1..Len(st.emitted) : Cardinality({i \in 1..Len(e.files) : e.files[i].name = st.emitted[j][1]}) # 1
     THEN {"not-exactly-one-file-per-report"} ELSE {})

Viol(st, e) ==
  CASE e.k = "step" -> StepViol(st, e)
    [] e.k = "emit" -> EmitViol(st, e)
    [] e.k = "final" -> {}
    [] e.k = "end" -> EndViol(st, e)
    [] e.k = "files" -> FilesViol(st, e)
    [] OTHER -> {"unexpected-" \o e.k}

AutoEmit(st) == IF ~st.auto THEN st ELSE
   LET m == DueLast(st) - st.last IN
   [st EXCEPT !.last = @ + m,
              !.emitted = @ \o [i \in 1..m |-> <<(st.last + i) * st.k, st.n>>]]

Apply(st, e) ==
  CASE e.k = "step" -> AutoEmit([st EXCEPT !.elapsed = @ + e.d, !.n = @ + 1, !.prog = Append(@, <<e.no, e.cost>>)])
    [] e.k = "emit" -> [st EXCEPT !.last = @ + 1, !.emitted = Append(@, <<e.time, st.n>>)]
    [] e.k = "final" -> [st EXCEPT !.finals = @ \cup {<<st.n, e.pop>>}]
    [] e.k = "end" -> [st EXCEPT !.ended = TRUE]
    [] e.k = "files" -> [st EXCEPT !.checked = TRUE]
    [] OTHER -> st

Complete(st) == (IF st.ended THEN {} ELSE {"run-never-ended"}) \cup (IF st.checked THEN {} ELSE {"files-not-checked"})
=============================================================================
