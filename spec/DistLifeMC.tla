----------------------------- MODULE DistLifeMC -----------------------------
(* RedundantViol accepts exactly the outcomes of comparing the living demes one after   *)
(* another in some order; every position, status and outcome of the bound.               *)
EXTENDS DistLife
CONSTANTS MaxX, NN
VARIABLES t, K
Cfg == [dist2 |-> <<3, 3, 3>>, ratio |-> <<1, 1, 1>>, maxlevel |-> 0, limit |-> 1, sproutiveness |-> 1, len |-> <<1, 1, 1>>, sizes |-> <<1, 1, 1>>]
Init == /\ \E xs \in [1..NN -> 0..MaxX] : \E s \in [1..NN -> {"a", "r", "d"}] : \E l \in [1..NN -> {0, 1}] :
             /\ l[1] = 0
             /\ t = [InitSt(Cfg) EXCEPT !.nodes = [i \in 1..NN |-> [NewNode(l[i], 0) EXCEPT !.x = xs[i], !.ran = 1, !.alive = s[i] = "a", !.ripe = s[i] = "r"]]]
        /\ K = {}
Next == K = {} /\ K' \in SUBSET AliveSet(t) /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, K>>
Orders == {p \in [AliveSet(t) -> 1..NN] : \A i, j \in AliveSet(t) : i # j => p[i] # p[j]}
KilledBy(p) == {i \in AliveSet(t) : RipeClose(t, i) \/ \E j \in AliveSet(t) : p[j] < p[i] /\ Near(t, i, j)}
Exact == (RedundantViol(t, K) = {}) <=> (\E p \in Orders : KilledBy(p) = K)
=============================================================================
