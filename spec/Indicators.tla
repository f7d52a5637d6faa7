----------------------------- MODULE Indicators -----------------------------
(* Indicators of stored results.  Results come, go and change; whenever indicators are *)
(* asked for, each must describe the results as they then are.  The dominance indicator *)
(* of a run is its share of the joint front of the corresponding checkpoints (same      *)
(* budget, same run number) of all algorithms present; runs are numbered per algorithm  *)
(* in the order of their names.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
\* cfg.contents: seq of contents, each a seq of points (objective vectors over integers, all minimised)
InitSt(cfg) == [cfg |-> cfg, res |-> {}, runs |-> {}, changed |-> {}, seen |-> {}]
At(S, a, r, b) == {x \in S : x.a = a /\ x.r = r /\ x.b = b}
Leq(x, y) == \A i \in 1..Len(x) : x[i] <= y[i]
Front(S) == {x \in S : ~\E y \in S : y # x /\ Leq(y, x)}
Pts(st, x) == Range(st.cfg.contents[x.d])
\* a run is a folder: it counts as a run of its algorithm as long as the folder exists
No(st, a, r) == Cardinality({q \in st.runs : q[1] = a /\ q[2] <= r})
Peers(st, x) == {y \in st.res : y.b = x.b /\ No(st, y.a, y.r) = No(st, x.a, x.r)}
Joint(st, x) == Front(UNION {Pts(st, y) : y \in Peers(st, x)})
Num(st, x) == Cardinality(Front(Pts(st, x)) \cap Joint(st, x))
Den(st, x) == Cardinality(Joint(st, x))

\* e.got: seq of [a, r, b, n, d (the dominance indicator as a fraction), same (all other indicators equal those computed from scratch)]
QueryViol(st, e) ==
  LET G == Range(e.got) IN
  (IF {<<g.a, g.r, g.b>> : g \in G} # {<<x.a, x.r, x.b>> : x \in st.res} \/ Len(e.got) # Cardinality(st.res) THEN {"other-results-listed"}
   ELSE UNION {LET x == CHOOSE x \in st.res : x.a = g.a /\ x.r = g.r /\ x.b = g.b IN
     (IF g.n * Den(st, x) # g.d * Num(st, x) THEN {"dominance-indicator-of-other-results"} ELSE {}) \cup
     (IF ~g.same /\ <<g.a, g.r, g.b>> \notin st.changed THEN {"cached-indicator-differs-from-the-result's"} ELSE {}) : g \in G})

Viol(st, e) ==
  CASE e.k = "query" -> QueryViol(st, e)
    [] e.k = "ask" -> IF e.answer # "raised" THEN {"answered-for-other-parameters"} ELSE {}
    [] OTHER -> {}
Apply(st, e) ==
  CASE e.k = "put" -> [st EXCEPT !.res = (@ \ At(@, e.a, e.r, e.b)) \cup {[a |-> e.a, r |-> e.r, b |-> e.b, d |-> e.d]},
                                 !.runs = @ \cup {<<e.a, e.r>>},
                                 !.changed = IF \E x \in st.seen : x.a = e.a /\ x.r = e.r /\ x.b = e.b /\ x.d # e.d THEN @ \cup {<<e.a, e.r, e.b>>} ELSE @]
    [] e.k = "del" -> [st EXCEPT !.res = @ \ At(@, e.a, e.r, e.b)]
    [] e.k = "delrun" -> [st EXCEPT !.res = {x \in @ : ~(x.a = e.a /\ x.r = e.r)}, !.runs = @ \ {<<e.a, e.r>>},
                                    !.changed = {x \in @ : ~(x[1] = e.a /\ x[2] = e.r)}, !.seen = {x \in @ : ~(x.a = e.a /\ x.r = e.r)}]
    [] e.k = "query" -> [st EXCEPT !.seen = @ \cup st.res]
    [] OTHER -> st
Complete(st) == {}
=============================================================================
