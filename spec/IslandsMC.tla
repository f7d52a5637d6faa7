----------------------------- MODULE IslandsMC ------------------------------
(* Every symmetric loop-free neighbourhood over the islands, every choice of migrants. *)
EXTENDS Islands, Json
CONSTANTS MaxIslands, PopPer, MaxM, Gen, MaxEpochs
VARIABLES st, pops, ini
vars == <<st, pops, ini>>
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SeqOfSet(S \ {x})
AdjOf(n, G) == [i \in 1..n |-> SeqOfSet({j \in 1..n : <<i, j>> \in G \/ <<j, i>> \in G})]
Deal(n, k) == [i \in 1..n |-> SeqOfSet({x \in 1..k : x % n = i - 1})]
Init == \E n \in 1..MaxIslands : \E G \in SUBSET Pairs(n) : \E m \in 0..MaxM : \E extra \in 0..(n - 1) :
          LET adj == AdjOf(n, G)  k == n * PopPer + extra IN
          /\ \A i \in 1..n : Len(adj[i]) * m <= PopPer
          /\ IF Gen THEN extra = 0 ELSE m > 0 /\ extra <= 1
          /\ st = InitSt([islands |-> n, migrants |-> m, len |-> 1, adj |-> adj])
          /\ pops = Deal(n, k) /\ ini = 1..k
          /\ IF Gen THEN PrintT("GEN|" \o ToJson([islands |-> n, migrants |-> m, adj |-> adj])) ELSE TRUE
\* edges in order; each takes m members of what the sender still holds of its old population
Edges == {<<i, j>> \in (1..st.n) \X (1..st.n) : j \in Rng(st.adj[i])}
\* every way to pick disjoint m-subsets for the edges leaving island i: functions from members to destination (0 = stays)
Assign(i) == {f \in [Rng(pops[i]) -> {0} \cup Rng(st.adj[i])] : \A j \in Rng(st.adj[i]) : Cardinality({x \in Rng(pops[i]) : f[x] = j}) = st.m}
RECURSIVE Plans(_)
Plans(i) == IF i = 0 THEN {<<>>} ELSE {Append(p, f) : p \in Plans(i - 1), f \in Assign(i)}
Moved(plan) == [j \in 1..st.n |-> SeqOfSet({x \in Rng(pops[j]) : plan[j][x] = 0} \cup UNION {{x \in Rng(pops[i]) : plan[i][x] = j} : i \in 1..st.n})]
Ev(after) == [k |-> "epoch", uniq |-> TRUE, steps |-> [i \in 1..st.n |-> st.len], before |-> pops, after |-> after,
              costs |-> [i \in 1..st.n |-> i], cost |-> SumSeq([i \in 1..st.n |-> i]), reported |-> SumSeq([i \in 1..st.n |-> i])]
DealEv == [k |-> "deal", given |-> SeqOfSet(ini), islands |-> pops]
Begin == /\ ~Gen /\ ~st.dealt /\ Viol(st, DealEv) = {} /\ st' = Apply(st, DealEv) /\ UNCHANGED <<pops, ini>>
Epoch == /\ ~Gen /\ st.dealt /\ st.epochs < MaxEpochs
         /\ \E p \in Plans(st.n) : LET a == Moved(p) IN Viol(st, Ev(a)) = {} /\ pops' = a /\ st' = Apply(st, Ev(a)) /\ UNCHANGED ini
Next == Begin \/ Epoch
Spec == Init /\ [][Next]_vars
Conserved == Rng(Flatten(pops)) = ini /\ Len(Flatten(pops)) = Cardinality(ini)
Even == \A i, j \in 1..st.n : Len(pops[i]) - Len(pops[j]) \in {-1, 0, 1}
\* moving one migrant to the wrong place, dropping or copying one is always noticed
Noticed == (~Gen /\ st.dealt) => \A i, j \in 1..st.n : i # j /\ Len(pops[i]) > 0 =>
   LET a == [pops EXCEPT ![i] = Tail(@), ![j] = Append(@, Head(pops[i]))]
       b == [pops EXCEPT ![i] = Tail(@)]
       c == [pops EXCEPT ![i] = Append(@, Head(@))] IN
   Viol(st, Ev(a)) # {} /\ Viol(st, Ev(b)) # {} /\ Viol(st, Ev(c)) # {}
\* migration can always happen
Enabled1 == (~Gen /\ st.dealt /\ st.epochs < MaxEpochs) => Plans(st.n) # {}
=============================================================================
