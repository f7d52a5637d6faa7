----------------------------- MODULE ElitistMC ------------------------------
(* Every pool of at most MaxLen candidates over (0..V)^2 is filled and then cut in    *)
(* every way the specification allows; what the statement promises follows.           *)
EXTENDS Elitist
CONSTANTS V, MaxLen
VARIABLES pool, kept, st, phase
vars == <<pool, kept, st, phase>>
Vecs == [1..2 -> 0..V]
Key(v) == v[1] * (V + 1) + v[2]
Init == /\ pool = <<>> /\ kept = {} /\ phase = "fill"
        /\ \E m \in {"indicator", "fronts", "layers"}, n \in 1..3 : st = InitSt([n |-> n, mode |-> m])
Fill == /\ phase = "fill" /\ Len(pool) < MaxLen
        /\ \E v \in Vecs : /\ (IF pool = <<>> THEN TRUE ELSE Key(pool[Len(pool)]) <= Key(v))
                           /\ pool' = Append(pool, v)
        /\ UNCHANGED <<kept, st, phase>>
Num(n) == [i \in 1..n |-> i]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SeqOf(S \ {x})
Event(K) == [k |-> "cut", offered |-> Num(Len(pool)), extra |-> <<>>, kept |-> SeqOf(K), obj |-> pool, full |-> TRUE]
Cut == /\ phase = "fill" /\ Len(pool) >= st.n
       /\ \E K \in SUBSET (1..Len(pool)) : /\ Cardinality(K) = st.n
                                           /\ Viol(st, Event(K)) = {}
                                           /\ kept' = K
       /\ phase' = "cut" /\ st' = Apply(st, Event(kept')) /\ UNCHANGED pool
Next == Fill \/ Cut
Spec == Init /\ [][Next]_vars
Best == {i \in 1..Len(pool) : pool[i] \in Minimal(Rng(pool))}
After == phase = "cut"
NoDiscardDominates == After => \A d \in (1..Len(pool)) \ kept : \A x \in kept : ~Dominates(pool[d], pool[x])
BestSurviveWhenTheyFit == After /\ st.mode # "indicator" /\ Cardinality(Best) <= st.n => Best \subseteq kept
OnlyBestWhenTheyDoNot == After /\ st.mode # "indicator" /\ Cardinality(Best) > st.n => kept \subseteq Best
SomeBestKept == After => kept \cap Best # {}
LayersPrefix == After /\ st.mode = "layers" =>
   LET L == LayersOf(Rng(pool))
       No(i) == CHOOSE k \in 1..Len(L) : pool[i] \in L[k] IN
   \A k \in 1..Len(L) : (\E i \in kept : No(i) > k) => \A i \in 1..Len(pool) : No(i) = k => i \in kept
\* a cut is always possible
CutPossible == phase = "fill" /\ Len(pool) >= st.n =>
   \E K \in SUBSET (1..Len(pool)) : Cardinality(K) = st.n /\ Viol(st, Event(K)) = {}
=============================================================================
