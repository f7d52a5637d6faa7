----------------------------- MODULE TimeRunMC -----------------------------
EXTENDS TimeRun, Json
CONSTANTS Ks, Ts, Durs, Gen
VARIABLES st, hist
vars == <<st, hist>>
Init == \E k \in Ks, T \in Ts : st = InitSt([step |-> k, timeout |-> T, auto |-> FALSE]) /\ hist = <<>>
Ev(d) == [k |-> "step", d |-> d, no |-> st.n, cost |-> 10 * (st.n + 1)]
Em == [k |-> "emit", time |-> (st.last + 1) * st.k, no |-> IF st.n >= 2 THEN st.n - 2 ELSE 0,
       cost |-> IF st.n >= 2 THEN 10 * (st.n - 1) ELSE 0]
Step == \E d \in Durs : /\ Viol(st, Ev(d)) = {} /\ st' = Apply(st, Ev(d)) /\ hist' = Append(hist, d)
Emit == /\ Viol(st, Em) = {} /\ st' = Apply(st, Em) /\ UNCHANGED hist
End == LET e == [k |-> "end", ok |-> TRUE] IN
       /\ ~st.ended /\ Viol(st, e) = {} /\ st' = Apply(st, e) /\ UNCHANGED hist
       /\ Gen => PrintT("GEN|" \o ToJson([step |-> st.k, timeout |-> st.T, durs |-> hist]))
Next == Step \/ Emit \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* consequences
NoGapNoDup == \A i \in 1..Len(st.emitted) : st.emitted[i][1] = i * st.k
Within == \A i \in 1..Len(st.emitted) : st.emitted[i][1] <= st.T
Total == st.ended /\ st.n >= 2 => Len(st.emitted) = st.T \div st.k
OneOverrun == \A i \in 1..Len(hist) : TRUE /\ (st.elapsed < st.T \/ st.n = Len(hist))
Terminates == <>(st.ended)
=============================================================================
