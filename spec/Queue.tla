------------------------------- MODULE Queue -------------------------------
(* A queue of simulations: N repetitions of every selected pair of problem and         *)
(* algorithm.  Each is executed once, in any order; whatever fails, the others run and  *)
(* are stored, every algorithm object made is released once and not used afterwards,    *)
(* and exactly the simulations that did not complete are reported.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: n repetitions; mode "budget"/"time"; cps checkpoints ascending; pf[p] fate of a pair:
\*   "ok", "prep" (preparation fails), "nv" (not viable), "dir" (its results cannot be stored);
\* inf[p][i] fate of the i-th object made for the pair: [f, at] with f one of
\*   "ok", "construct", "step" (fails at step at), "final"/"fit"/"store" (fails at the at-th checkpoint)
Range(s) == {s[i] : i \in 1..Len(s)}
InitSt(cfg) == [cfg |-> cfg, jobs |-> {}, begun |-> {}, made |-> {}, broken |-> {}, shut |-> {}, ended |-> FALSE, queued |-> FALSE]
Pairs(c) == 1..Len(c.pf)
Runs(st, p) == {j[2] : j \in {x \in st.jobs : x[1] = p}}

\* the checkpoints the i-th object of pair p can have stored before it fails
Upto(s, n) == SubSeq(s, 1, IF n < Len(s) THEN (IF n < 0 THEN 0 ELSE n) ELSE Len(s))
Reach(c, p, i) ==
  LET f == c.inf[p][i] IN
  IF c.pf[p] # "ok" THEN <<>>
  ELSE CASE f.f = "ok" -> c.cps
         [] f.f = "construct" -> <<>>
         [] f.f = "step" -> Upto(c.cps, Cardinality({x \in Range(c.cps) : x <= f.at - 1}))
         [] OTHER -> Upto(c.cps, f.at - 1)
\* a failure placed beyond the last step or checkpoint never happens
Beyond(c, f) == \/ f.f = "step" /\ f.at > c.cps[Len(c.cps)]
                \/ f.f \in {"final", "fit", "store"} /\ f.at > Len(c.cps)
Succeeds(c, p, i) == c.pf[p] = "ok" /\ (c.inf[p][i].f = "ok" \/ Beyond(c, c.inf[p][i]))
\* a timed run notices a checkpoint that could not be stored only at its end, and may store later ones
StoredOk(c, p, i, cps) ==
  IF c.mode = "budget" \/ Succeeds(c, p, i) THEN cps = (IF Succeeds(c, p, i) THEN c.cps ELSE Reach(c, p, i))
  ELSE cps # c.cps /\ Range(cps) \subseteq Range(c.cps)

QueueViol(st, e) ==
  LET c == st.cfg
      J == Range(e.jobs) IN
  (IF Len(e.jobs) # Cardinality(J) \/ (\E x \in J : x[1] \notin Pairs(c)) \/ (\E p \in Pairs(c) : Cardinality({x \in J : x[1] = p}) # c.n) THEN {"queue-differs-from-the-request"} ELSE {}) \cup
  (IF ~e.params THEN {"wrong-parameters"} ELSE {})

\* e.dirs: seq of [p, run, i, cps, n]: a run's folder, the object that wrote it, its checkpoints and the step count of each
EndViol(st, e) ==
  LET c == st.cfg
      D(p) == {d \in Range(e.dirs) : d.p = p /\ d.cps # <<>>}
      Rep(p) == {r \in Runs(st, p) : <<p, r>> \in Range(e.reported)}
      Objs(p) == {x[2] : x \in {y \in st.begun : y[1] = p}}
      Done(p) == {d \in D(p) : d.i \in Objs(p) /\ Succeeds(c, p, d.i)} IN
  UNION {
   (IF c.pf[p] \in {"ok", "dir"} /\ Cardinality(Objs(p)) # c.n THEN {"a-simulation-was-not-executed"} ELSE {}) \cup
   (IF \E d \in D(p) : d.i \notin Objs(p) \/ d.run \notin Runs(st, p) THEN {"stored-under-a-wrong-name"} ELSE {}) \cup
   (IF \E d, f \in D(p) : d # f /\ (d.i = f.i \/ d.run = f.run) THEN {"two-simulations-under-one-number-or-one-under-two"} ELSE {}) \cup
   (IF \E d \in D(p) : d.i \in Objs(p) /\ ~StoredOk(c, p, d.i, d.cps) THEN {"stored-results-incomplete-or-beyond-the-failure"} ELSE {}) \cup
   (IF \E d \in D(p) : c.mode = "budget" /\ d.n # d.cps THEN {"stored-contents-of-another-moment"} ELSE {}) \cup
   (IF \E i \in Objs(p) : Succeeds(c, p, i) /\ ~\E d \in D(p) : d.i = i THEN {"a-succeeding-simulation-is-not-stored"} ELSE {}) \cup
   (IF Rep(p) # Runs(st, p) \ {d.run : d \in Done(p)} THEN {"reported-errors-differ-from-the-failures"} ELSE {})
   : p \in Pairs(c)} \cup
  (IF \E x \in Range(e.reported) : ~(x[1] \in Pairs(c) /\ x[2] \in Runs(st, x[1])) THEN {"reported-something-unknown"} ELSE {}) \cup
  (IF Cardinality(Range(e.reported)) # Len(e.reported) THEN {"reported-twice"} ELSE {}) \cup
  (IF ~(st.made \subseteq st.shut) THEN {"an-algorithm-was-never-released"} ELSE {})

Viol(st, e) ==
  LET c == st.cfg
      id == <<e.p, e.i>> IN
  CASE e.k = "queue" -> QueueViol(st, e)
    [] e.k = "begin" -> IF e.i > c.n THEN {"executed-more-often-than-requested"} ELSE {}
    [] e.k = "step" -> IF id \in st.shut THEN {"used-after-its-release"} ELSE {}
    [] e.k = "shut" -> (IF id \in st.shut THEN {"released-twice"} ELSE {}) \cup
                       (IF id \notin st.made THEN {"released-before-it-was-made"} ELSE {})
    [] e.k = "end" -> EndViol(st, e)
    [] OTHER -> {}
Apply(st, e) ==
  LET id == <<e.p, e.i>> IN
  CASE e.k = "begin" -> [st EXCEPT !.begun = @ \cup {id}]
    [] e.k = "made" -> [st EXCEPT !.made = @ \cup {id}]
    [] e.k = "fault" -> [st EXCEPT !.broken = @ \cup {id}]
    [] e.k = "shut" -> [st EXCEPT !.shut = @ \cup {id}]
    [] e.k = "end" -> [st EXCEPT !.ended = TRUE]
    [] e.k = "queue" -> [st EXCEPT !.queued = TRUE, !.jobs = Range(e.jobs)]
    [] OTHER -> st
Complete(st) == IF st.ended /\ st.queued THEN {} ELSE {"the-queue-did-not-end"}
=============================================================================
