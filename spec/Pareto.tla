------------------------------- MODULE Pareto -------------------------------
(* Pareto dominance over integer objective vectors (minimisation), multisets and     *)
(* layering: the definitions every other specification uses.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dominates(a, b) == /\ \A j \in 1..Len(a) : a[j] <= b[j]
                   /\ \E j \in 1..Len(a) : a[j] < b[j]
Rng(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) : Count(s, x) = Count(t, x)
SubBag(s, t) == \A x \in Rng(s) : Count(s, x) <= Count(t, x)
\* elements of the set S that no element of S dominates
Minimal(S) == {x \in S : \A y \in S : ~Dominates(y, x)}
RECURSIVE LayersOf(_)
LayersOf(S) == IF S = {} THEN <<>> ELSE LET m == Minimal(S) IN <<m>> \o LayersOf(S \ m)
LayerNo(S, x) == LET L == LayersOf(S) IN CHOOSE k \in 1..Len(L) : x \in L[k]
Filter(s, S) == SelectSeq(s, LAMBDA x : x \in S)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
=============================================================================
