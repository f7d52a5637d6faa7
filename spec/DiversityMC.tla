---------------------------- MODULE DiversityMC -----------------------------
(* Every pool of at most MaxLen candidates over (0..V)^2 and every bag the rule may   *)
(* keep: the rules agree with what Pareto dominance demands (the statement of the      *)
(* Elitist specification), something can always be kept, and order does not matter.    *)
EXTENDS Diversity, Json
CONSTANTS V, MaxLen, Rules, Sizes, Flat
VARIABLES pool, kept, st, phase
vars == <<pool, kept, st, phase>>
E == INSTANCE Elitist
Vecs == [1..2 -> 0..V]
Key(v) == v[1] * (V + 1) + v[2]
Init == /\ pool = <<>> /\ kept = {} /\ phase = "fill"
        /\ \E r \in Rules, n \in Sizes : st = InitSt([n |-> n, rule |-> r, ref |-> <<V + 1, V + 1>>])
Fill == /\ phase = "fill" /\ Len(pool) < MaxLen
        /\ \E v \in Vecs : /\ (IF pool = <<>> THEN TRUE ELSE Key(pool[Len(pool)]) <= Key(v))
                           /\ pool' = Append(pool, v)
        /\ UNCHANGED <<kept, st, phase>>
Num(n) == [i \in 1..n |-> i]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o SeqOf(S \ {x})
Event(K) == [k |-> "cut", offered |-> Num(Len(pool)), kept |-> SeqOf(K), obj |-> pool,
              \* reference lines along the axes
              rej |-> [i \in 1..Len(pool) |-> <<1000 * pool[i][2], 1000 * pool[i][1]>>], proj |-> [i \in 1..Len(pool) |-> <<1000 * pool[i][1], 1000 * pool[i][2]>>]]
\* the volume rule discards exactly one
Right == IF st.rule = "volume" THEN Len(pool) = st.n + 1 ELSE Len(pool) >= st.n
\* negative control (Flat): keep by the rule alone, without layers
Allowed(K) == IF Flat THEN Cardinality(K) = st.n ELSE
   /\ Viol(st, Event(K)) = {}
   /\ (st.rule = "crowding" => E!LayerOk(pool, Num(Len(pool)), SeqOf(K)))
Cut == /\ phase = "fill" /\ Right
       /\ \E K \in SUBSET (1..Len(pool)) : /\ Cardinality(K) = st.n /\ Allowed(K) /\ kept' = K
       /\ phase' = "cut" /\ st' = Apply(st, Event(kept')) /\ UNCHANGED pool
Next == Fill \/ Cut
Spec == Init /\ [][Next]_vars
Cuttable == phase = "fill" /\ Right => \E K \in SUBSET (1..Len(pool)) : Cardinality(K) = st.n /\ Allowed(K)
Decided == IF st.rule = "lines" /\ ~Flat THEN LinesJudged(Event({}), st.theta) ELSE Judged(st.rule, pool, st.n) \/ Flat
\* dominance compliance
Compliant == phase = "cut" /\ Decided /\ (st.rule # "lines" \/ Flat) => E!DiscardOk(pool, Num(Len(pool)), SeqOf(kept))
Fronts == phase = "cut" /\ Decided /\ st.rule \notin {"indicator", "lines"} => E!FrontOk(pool, Num(Len(pool)), <<>>, SeqOf(kept))
\* the extremes of a plain layer survive its thinning by crowding when they fit
Extremes == phase = "cut" /\ st.rule = "crowding" /\ Cardinality(NonDominated(pool)) > st.n /\ st.n >= 2 =>
   LET L == NonDominated(pool) IN Plain(pool, L) => \A i \in L : Best(pool, L, i) => i \in kept
\* what goes by volume is the choice that leaves most of it
MostLeft == phase = "cut" /\ st.rule = "volume" =>
   LET lay == LayerOf(pool)
       last == MaxOf({lay[i] : i \in Pos(pool)})
       L == {i \in Pos(pool) : lay[i] = last}
       Left(i) == HV!Volume({pool[j] : j \in L \ {i}}, st.ref) IN
   \A d \in Pos(pool) \ kept : d \in L /\ \A i \in L : Left(d) >= Left(i)
\* of every line the candidate of the best theta fitness survives when there is room for all of them
LineBests == phase = "cut" /\ st.rule = "lines" /\ Decided =>
   LET Axis(i) == IF pool[i][2] < pool[i][1] THEN 1 ELSE 2
       Theta(i) == IF Axis(i) = 1 THEN pool[i][1] + st.theta * pool[i][2] ELSE pool[i][2] + st.theta * pool[i][1]
       B == {i \in Pos(pool) : \A j \in Pos(pool) : Axis(j) = Axis(i) => Theta(i) <= Theta(j)} IN
   /\ Cardinality(B) <= st.n => B \subseteq kept
   /\ Cardinality(B) > st.n => kept \subseteq B
Emit == phase = "fill" /\ Len(pool) = MaxLen => PrintT("GEN|" \o ToJson([set |-> pool]))
=============================================================================
