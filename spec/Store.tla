------------------------------- MODULE Store -------------------------------
(* The results folder as its users see it.  A checkpoint is identified by problem,    *)
(* algorithm, run and budget.  A completed store makes the checkpoint available with   *)
(* exactly its content; a store interrupted by the death of the process leaves it as   *)
(* it was before or complete.  Loading lists every available checkpoint once, budgets  *)
(* ascending, runs of an algorithm numbered in the order of their names.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(cfg) == [have |-> {}, pend |-> {}]
Key(x) == <<x.p, x.a, x.b, x.r>>
With(st, x) == {y \in st.have : Key(y) # Key(x)} \cup {[p |-> x.p, a |-> x.a, b |-> x.b, r |-> x.r, d |-> x.d]}

\* a load: e.groups, a sequence of [p, a, lists], lists a sequence of [b, runs], runs a sequence of [no, r, d]
Range(s) == {s[i] : i \in 1..Len(s)}
Listed(e) == UNION {UNION {{[p |-> g.p, a |-> g.a, b |-> l.b, r |-> x.r, d |-> x.d] : x \in Range(l.runs)} : l \in Range(g.lists)} : g \in Range(e.groups)}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Count(e) == Sum([i \in 1..Len(e.groups) |-> Sum([j \in 1..Len(e.groups[i].lists) |-> Len(e.groups[i].lists[j].runs)])])

\* r is the position of the run's name among all names of its algorithm, so the order of names is the order of r
GroupViol(g) ==
  (IF \E i, j \in 1..Len(g.lists) : i < j /\ g.lists[i].b >= g.lists[j].b THEN {"budgets-not-ascending"} ELSE {}) \cup
  (IF \E l \in Range(g.lists) : \E i, j \in 1..Len(l.runs) : i < j /\ (l.runs[i].no >= l.runs[j].no \/ l.runs[i].r >= l.runs[j].r)
     THEN {"runs-not-in-the-order-of-their-names"} ELSE {}) \cup
  (IF \E l, m \in Range(g.lists) : \E x \in Range(l.runs), y \in Range(m.runs) : (x.r = y.r) # (x.no = y.no)
     THEN {"run-numbers-inconsistent-across-budgets"} ELSE {})

LoadViol(st, e) ==
  LET L == Listed(e)
      keys == {Key(x) : x \in L}
      pk == {Key(x) : x \in st.pend} IN
  (IF \E x \in st.have : Key(x) \notin keys THEN {"stored-checkpoint-lost"} ELSE {}) \cup
  (IF \E x \in L : Key(x) \notin ({Key(y) : y \in st.have} \cup pk) THEN {"checkpoint-out-of-nowhere"} ELSE {}) \cup
  (IF \E x \in L : x \notin (st.have \cup st.pend) /\ Key(x) \in ({Key(y) : y \in st.have} \cup pk) THEN {"content-differs"} ELSE {}) \cup
  (IF Count(e) # Cardinality(L) \/ Cardinality(keys) # Cardinality(L) THEN {"listed-more-than-once"} ELSE {}) \cup
  (IF \E i, j \in 1..Len(e.groups) : i # j /\ e.groups[i].p = e.groups[j].p /\ e.groups[i].a = e.groups[j].a THEN {"algorithm-listed-twice"} ELSE {}) \cup
  UNION {GroupViol(g) : g \in Range(e.groups)}

Viol(st, e) ==
  CASE e.k = "load" -> LoadViol(st, e)
    [] e.k = "ids" -> IF Cardinality(Range(e.places)) # Len(e.places) THEN {"simulations-share-a-place"} ELSE {}
    [] e.k = "back" -> IF ~\E x \in st.have : Key(x) = <<e.p, e.a, e.b, e.r>> /\ x.d = e.d THEN {"read-back-differs"} ELSE {}
    [] OTHER -> {}
Apply(st, e) ==
  CASE e.k = "store" -> [st EXCEPT !.have = With(st, e), !.pend = {x \in @ : Key(x) # Key(e)}]
    [] e.k = "crash" -> [st EXCEPT !.pend = @ \cup {[p |-> e.p, a |-> e.a, b |-> e.b, r |-> e.r, d |-> e.d]}]
    [] e.k = "load" -> [have |-> Listed(e), pend |-> {}]
    [] OTHER -> st
Complete(st) == {}
=============================================================================
