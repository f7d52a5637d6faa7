------------------------------- MODULE HgsMC --------------------------------
(* The environment chooses where each living deme moves, how its hypervolume grows,   *)
(* and which delegates it nominates; the rules do the rest.                            *)
EXTENDS Hgs, Json
CONSTANTS Xs, Hs, Dels, MaxSteps, MaxNodes, Cfgs
VARIABLES st, ini, phase, want
vars == <<st, ini, phase, want>>
DelSets == {<<>>, <<0>>, <<0, 3>>, <<6, 6, 3>>}
Cfg(c) == CASE c = 1 -> [dist2 |-> <<3, 3, 1>>, ratio |-> <<300, 300, 10>>, maxlevel |-> 1, limit |-> 2, sproutiveness |-> 1, len |-> <<1, 1, 1>>, sizes |-> <<2, 2, 2>>]
            [] c = 2 -> [dist2 |-> <<3, 1, 1>>, ratio |-> <<10, 600, 10>>, maxlevel |-> 2, limit |-> 1, sproutiveness |-> 2, len |-> <<1, 1, 1>>, sizes |-> <<2, 2, 2>>]
            [] c = 3 -> [dist2 |-> <<1, 3, 3>>, ratio |-> <<600, 10, 10>>, maxlevel |-> 1, limit |-> 3, sproutiveness |-> 2, len |-> <<1, 1, 1>>, sizes |-> <<2, 2, 2>>]
Init == \E c \in Cfgs : st = Apply(InitSt(Cfg(c)), [k |-> "plant"]) /\ ini = st /\ phase = "start" /\ want = <<>>
Alive(s) == {i \in 1..N(s) : s.nodes[i].alive}
\* hypervolume after the metaepoch: a growth of g over the previous total
Total(n) == n.rel + (IF n.hv = NoHv THEN 0 ELSE n.hv)
\* all sprout parents the rules allow, each as often as it may sprout, in order of age
RECURSIVE Parents(_, _)
Parents(s, i) == IF i = 0 THEN <<>> ELSE Parents(s, i - 1) \o (IF ReachRipe(s, i) THEN [q \in 1..MaxSprouts(s, i) |-> i] ELSE <<>>)
StepWith(xf, gf, d) ==
   LET x == [i \in 1..N(st) |-> IF i \in Alive(st) THEN xf[i] ELSE st.nodes[i].x]
       h == [i \in 1..N(st) |-> IF i \in Alive(st) THEN Total(st.nodes[i]) + gf[i] ELSE 0]
       del == [i \in 1..N(st) |-> d]
       t == Trimmed2(Trimmed1(Evolved(st, x, h, del)))
       ps == Parents(t, N(t))
       a == Revived(WithSprouts(t, ps)) IN
   ini' = t /\ st' = [a EXCEPT !.steps = @ + 1] /\ phase' = "done" /\ want' = ps
Step == /\ st.steps < MaxSteps /\ N(st) <= MaxNodes
        /\ \E xf \in [Alive(st) -> Xs] : \E gf \in [Alive(st) -> Hs] : \E d \in Dels : StepWith(xf, gf, d)
Next == Step
Spec == Init /\ [][Next]_vars
SomeAlive == \E i \in 1..N(st) : st.nodes[i].alive
RipeIsDead == \A i \in 1..N(st) : st.nodes[i].ripe => ~st.nodes[i].alive
\* unless everybody has just been revived, two living demes of a level that have run are not close
Apart == (phase = "done" /\ st.halv = ini.halv) => \A i, j \in 1..N(st) :
   (i # j /\ st.nodes[i].alive /\ st.nodes[j].alive /\ st.nodes[i].ran > 0 /\ st.nodes[j].ran > 0 /\ st.nodes[i].lvl = st.nodes[j].lvl)
      => ~Close(st, st.nodes[i].lvl, st.nodes[i].x, st.nodes[j].x)
Bounded == \A i \in 1..N(st) : Cardinality({q \in 1..Len(want) : want[q] = i}) <= st.cfg.sproutiveness
SproutsWithinLimit == phase = "done" => \A i \in 1..N(ini) : LET f == Cardinality({q \in 1..Len(want) : want[q] = i}) IN f > 0 => Living(ini, i) + f <= st.cfg.limit
OnlyDeepEnough == \A i \in 1..N(st) : st.nodes[i].lvl <= st.cfg.maxlevel
ParentsOlder == \A i \in 1..N(st) : st.nodes[i].parent < i /\ (st.nodes[i].parent > 0 => st.nodes[i].lvl = st.nodes[st.nodes[i].parent].lvl + 1)
=============================================================================
