----------------------------- MODULE Isolation -----------------------------
(* Runs in one process.  Preparing a combination of algorithm and problem yields      *)
(* parameters; creating, stepping, failing or finishing a run has no effect on        *)
(* anything but that run: not on the configuration, not on the problems, not on the   *)
(* populations handed to runs, not on any other instance - and what an instance does  *)
(* is what it would have done alone.  Separate preparations hand out separate          *)
(* individuals (e.shared: vectors also held by another preparation or its instances).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* digests are numbers.  cfg: conf, prob, prep (one per combination), solo (per combination: digest of a run
\* alone after construction and after each step)
InitSt(cfg) == [conf |-> cfg.conf, prob |-> cfg.prob, prep |-> cfg.prep, solo |-> cfg.solo,
                comb |-> <<>>, steps |-> <<>>, deep |-> <<>>, given |-> <<>>, over |-> {}]

\* every event carries conf, prob (digests now), deep (per instance: digest of its whole state now),
\* given (per instance: digest of the population it was given, now)
Actor(e) == IF e.k \in {"new", "step", "fail", "end"} THEN e.i ELSE 0
Others(st, e) == (1..Len(st.deep)) \ {Actor(e)}
Viol(st, e) ==
  (IF e.conf # st.conf THEN {"configuration-changed"} ELSE {}) \cup
  (IF e.prob # st.prob THEN {"problem-changed"} ELSE {}) \cup
  (IF \E i \in Others(st, e) \ st.over : e.deep[i] # st.deep[i] THEN {"another-instance-changed"} ELSE {}) \cup
  (IF \E i \in 1..Len(st.given) : e.given[i] # st.given[i] THEN {"population-handed-to-a-run-changed"} ELSE {}) \cup
  (IF e.k \in {"prep", "new"} /\ e.shared > 0 THEN {"individuals-shared-with-another-run"} ELSE {}) \cup
  (IF e.k = "prep" /\ e.d # st.prep[e.c] THEN {"prepared-parameters-differ"} ELSE {}) \cup
  (IF e.k = "new" /\ e.i # Len(st.comb) + 1 THEN {"bad-instance"} ELSE {}) \cup
  (IF e.k = "new" /\ e.d # st.solo[e.c][1] THEN {"start-depends-on-other-runs"} ELSE {}) \cup
  (IF e.k = "step" /\ e.d # st.solo[st.comb[e.i]][st.steps[e.i] + 2] THEN {"course-depends-on-other-runs"} ELSE {}) \cup
  (IF e.k = "work" /\ e.ran # e.expected THEN {"whole-run-ended-otherwise"} ELSE {})

Apply(st, e) ==
  CASE e.k = "new" -> [st EXCEPT !.comb = Append(@, e.c), !.steps = Append(@, 0), !.deep = e.deep, !.given = e.given]
    [] e.k = "step" -> [st EXCEPT !.steps[e.i] = @ + 1, !.deep = e.deep]
    [] e.k \in {"fail", "end"} -> [st EXCEPT !.over = @ \cup {e.i}, !.deep = e.deep]
    [] OTHER -> st
Complete(st) == {}
=============================================================================
