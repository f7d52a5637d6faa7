----------------------------- MODULE HgsCostMC ------------------------------
(* Every short history of demes appearing, charging and running; the total is always   *)
(* the weighted sum of everything accounted, and nothing is accounted twice.            *)
EXTENDS HgsCost, Json
CONSTANTS MaxDemes, MaxSteps, MaxInc, Mods
VARIABLES st, costs, lvl, born, hist
vars == <<st, costs, lvl, born, hist>>
Init == /\ \E m \in [1..2 -> Mods] : st = InitSt([mod8 |-> m, quiet |-> <<TRUE, TRUE>>])
        /\ costs = <<2>> /\ lvl = <<0>> /\ born = 1 /\ hist = <<>>
Next == /\ st.steps < MaxSteps
        /\ \E ran \in [1..Len(costs) -> BOOLEAN] : \E inc \in [1..Len(costs) -> 0..MaxInc] : \E new \in BOOLEAN :
             LET c1 == [i \in 1..Len(costs) |-> IF ran[i] THEN costs[i] + inc[i] ELSE costs[i]]
                 e0 == [k |-> "cstep", costs |-> c1, lvl |-> lvl, ran |-> ran, final |-> <<>>, pops |-> <<>>, cost8 |-> 0, msg8 |-> 0, after8 |-> 0]
                 tot == st.total + SumTo(Adds(st, e0), Len(c1))
                 e == [e0 EXCEPT !.cost8 = tot, !.msg8 = tot, !.after8 = tot] IN
             /\ \A i \in 1..Len(costs) : ~ran[i] => inc[i] = 0
             /\ new => Len(costs) < MaxDemes
             /\ Viol(st, e) = {}
             /\ st' = Apply(st, e)
             /\ costs' = IF new THEN Append(c1, 3) ELSE c1
             /\ lvl' = IF new THEN Append(lvl, 1) ELSE lvl
             /\ hist' = Append(hist, [ran |-> ran, inc |-> inc, new |-> new]) /\ UNCHANGED born
Spec == Init /\ [][Next]_vars
View == <<st, costs, lvl>>
\* nothing is lost and nothing is counted twice
Telescopes == st.total = SumTo([i \in 1..Len(costs) |-> st.cfg.mod8[lvl[i] + 1] * Acct(st, i)], Len(costs))
NeverMoreThanCharged == \A i \in 1..Len(costs) : Acct(st, i) <= costs[i]
=============================================================================
