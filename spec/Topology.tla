------------------------------ MODULE Topology ------------------------------
(* The migration neighbourhood of n islands: loop-free, mutual, connected, bounded.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(cfg) == [n |-> 0]
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Reach(_, _)
Reach(nb, S) == LET T == S \cup UNION {nb[i] : i \in S} IN IF T = S THEN S ELSE Reach(nb, T)
\* adj: sequence of sequences of island numbers 1..n; n: how many islands were asked for
LawViol(n, adj) ==
  IF Len(adj) # n THEN {"not-one-entry-per-island"} ELSE
  IF \E i \in 1..n : \E j \in Rng(adj[i]) : j \notin 1..n THEN {"neighbour-does-not-exist"} ELSE
  LET nb == [i \in 1..n |-> Rng(adj[i])] IN
  (IF \E i \in 1..n : i \in nb[i] THEN {"island-is-its-own-neighbour"} ELSE {}) \cup
  (IF \E i \in 1..n : Len(adj[i]) # Cardinality(nb[i]) THEN {"neighbour-listed-twice"} ELSE {}) \cup
  (IF \E i \in 1..n : \E j \in nb[i] : i \notin nb[j] THEN {"neighbourhood-not-mutual"} ELSE {}) \cup
  (IF n > 0 /\ Reach(nb, {1}) # 1..n THEN {"islands-not-connected"} ELSE {}) \cup
  (IF \E i \in 1..n : Cardinality(nb[i]) > 4 THEN {"more-than-four-neighbours"} ELSE {})
Viol(st, e) == CASE e.k = "topology" -> LawViol(e.n, e.adj)
                 [] e.k = "changed" -> {"same-request-gives-another-neighbourhood"}
                 [] OTHER -> {"unexpected-" \o e.k}
Apply(st, e) == [st EXCEPT !.n = @ + 1]
Complete(st) == {}
=============================================================================
