---------------------------- MODULE BudgetRunMC ----------------------------
(* Design model: every ascending budget list over 1..MaxB, every sequence of    *)
(* step costs; checks the consequences a user relies on, and enumerates         *)
(* complete behaviours as test scenarios for the real worker.                   *)
EXTENDS BudgetRun, Json
CONSTANTS MaxB, MaxLen, Incs, MaxZero, Gen
VARIABLES st, hist, stored, zeros
vars == <<st, hist, stored, zeros>>

Asc(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE
             LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m}) IN F(S)
Lists == {Asc(S) : S \in {T \in SUBSET (1..MaxB) : T # {} /\ Cardinality(T) <= MaxLen}}

Init == \E b \in Lists : /\ st = InitSt([budgets |-> b, cost0 |-> 0])
                         /\ hist = <<>> /\ stored = <<>> /\ zeros = 0
Ev(d) == [k |-> "step", c0 |-> st.cost, c1 |-> st.cost + d]
Step == \E d \in Incs :
          /\ (d = 0 => zeros < MaxZero)
          /\ Viol(st, Ev(d)) = {}
          /\ LET st1 == Apply(st, Ev(d)) IN
             /\ st' = st1
             /\ stored' = stored \o [n \in 1..(st1.i - st.i) |->
                              [b |-> st.bud[st.i + n - 1], cost |-> st1.cost, prev |-> st.cost, at |-> st1.steps]]
          /\ hist' = Append(hist, d)
          /\ zeros' = zeros + (IF d = 0 THEN 1 ELSE 0)
End == /\ ~st.ended /\ Viol(st, [k |-> "end", ok |-> TRUE]) = {}
       /\ st' = Apply(st, [k |-> "end", ok |-> TRUE])
       /\ UNCHANGED <<hist, stored, zeros>>
       /\ Gen => PrintT("GEN|" \o ToJson([budgets |-> st.bud, costs |-> hist]))
Next == Step \/ End
Spec == Init /\ [][Next]_vars

\* consequences
AscendingOnce == \A a, b \in 1..Len(stored) : a < b => stored[a].b < stored[b].b
NoOvershootByAStep == \A a \in 1..Len(stored) : stored[a].prev < stored[a].b /\ stored[a].cost >= stored[a].b
AllAtEnd == st.ended => /\ Len(stored) = Len(st.bud)
                        /\ \A j \in 1..Len(st.bud) : stored[j].b = st.bud[j]
StopsPromptly == st.ended => (Len(hist) = 0 \/ stored[Len(stored)].at = Len(hist))
=============================================================================
