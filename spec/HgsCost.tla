------------------------------ MODULE HgsCost -------------------------------
(* Accounting of the hierarchical strategy: what every deme has charged, what the      *)
(* strategy has accounted for, whose populations make up the result, what a level       *)
(* sees of the objectives and on which grid its individuals live.                       *)
(* Cost modifiers are given in eighths, so that all arithmetic is on integers.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(cfg) == [cfg |-> cfg, total |-> 0, acct |-> <<>>, steps |-> 0]
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) \cup Rng(b) : Count(a, x) = Count(b, x)
Acct(st, i) == IF i <= Len(st.acct) THEN st.acct[i] ELSE 0
\* how much every deme adds: its level's modifier times what it charged since it was last accounted for
Adds(st, e) == [i \in 1..Len(e.costs) |-> IF e.ran[i] THEN st.cfg.mod8[e.lvl[i] + 1] * (e.costs[i] - Acct(st, i)) ELSE 0]
CostViol(st, e) ==
  (IF e.cost8 # st.total + SumTo(Adds(st, e), Len(e.costs)) THEN {"cost-is-not-the-weighted-sum-of-the-demes"} ELSE {}) \cup
  (IF e.msg8 # e.cost8 THEN {"reported-cost-is-not-the-cost"} ELSE {}) \cup
  (IF ~SameBag(e.final, Flatten(e.pops)) THEN {"final-population-is-not-all-demes-last-populations"} ELSE {}) \cup
  (IF e.after8 # e.cost8 THEN {"reading-the-final-population-charged"} ELSE {})
Viol(st, e) ==
  CASE e.k = "cstep" -> CostViol(st, e)
    [] e.k = "fit" -> IF st.cfg.quiet[e.lvl + 1] /\ e.seen # e.true THEN {"deme-sees-other-objective-values"} ELSE {}
    [] e.k = "grid" -> IF e.off > 0 THEN {"individual-not-representable-with-its-levels-bits"} ELSE {}
    [] OTHER -> {"unexpected-" \o e.k}
Apply(st, e) ==
  CASE e.k = "cstep" -> [st EXCEPT !.total = e.cost8, !.steps = @ + 1,
                         !.acct = [i \in 1..Len(e.costs) |-> IF e.ran[i] THEN e.costs[i] ELSE Acct(st, i)]]
    [] OTHER -> st
\* the distributed strategy accounts differently (DistStep): only its individuals are watched here
Complete(st) == IF st.steps = 0 /\ ~st.cfg.dist THEN {"nothing-observed"} ELSE {}
=============================================================================
