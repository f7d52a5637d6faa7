----------------------------- MODULE StepRunMC -----------------------------
EXTENDS StepRun, Json
CONSTANTS Incs, MaxOps, MaxSteps, MaxFails, MaxN, Budgets, Gen
VARIABLES st, ops, incs, msgs, fails
vars == <<st, ops, incs, msgs, fails>>
Init == /\ st = InitSt([cost0 |-> 0, pops |-> FALSE]) /\ ops = <<>> /\ incs = <<>> /\ msgs = <<>> /\ fails = 0
Do(e) == Viol(st, e) = {} /\ st' = Apply(st, e)
Ops == {<<"next", 0>>} \cup ({"steps"} \X (0..MaxN)) \cup ({"budget"} \X Budgets)
Call == \E o \in Ops : /\ Len(ops) < MaxOps
                       /\ Do([k |-> "call", op |-> o[1], arg |-> o[2]]) /\ ops' = Append(ops, o)
                       /\ UNCHANGED <<incs, msgs, fails>>
Step == \E d \in Incs : /\ Len(incs) < MaxSteps
                        /\ Do([k |-> "step", c1 |-> st.cost + d]) /\ incs' = Append(incs, d)
                        /\ UNCHANGED <<ops, msgs, fails>>
\* a failing step, in direct and n-step calls
Fail == /\ fails < MaxFails /\ Len(incs) < MaxSteps /\ st.op \in {"next", "steps"}
        /\ Do([k |-> "fail"]) /\ incs' = Append(incs, -1) /\ fails' = fails + 1 /\ UNCHANGED <<ops, msgs>>
Msg == LET e == [k |-> "msg", no |-> st.n, cost |-> st.cost, live |-> st.cost, haspop |-> FALSE] IN
       /\ Do(e) /\ msgs' = Append(msgs, <<e.no, e.cost>>) /\ UNCHANGED <<ops, incs, fails>>
Ret == /\ st.op # "idle" /\ Do([k |-> "ret", ok |-> ~st.failed]) /\ UNCHANGED <<ops, incs, msgs, fails>>
       /\ (Gen /\ Len(ops) = MaxOps) => PrintT("GEN|" \o ToJson([ops |-> ops, incs |-> incs]))
Next == Call \/ Step \/ Fail \/ Msg \/ Ret
Spec == Init /\ [][Next]_vars
Consecutive == \A i \in 1..Len(msgs) : msgs[i][1] = i - 1
Monotone == \A i, j \in 1..Len(msgs) : i < j => msgs[i][2] <= msgs[j][2]
OnePerStep == st.op = "idle" => Len(msgs) = Cardinality({i \in 1..Len(incs) : incs[i] >= 0})
NSteps == st.op = "idle" /\ Len(ops) > 0 => (ops[Len(ops)][1] = "steps" /\ ~st.failed => st.done = ops[Len(ops)][2])
BudgetMet == st.op = "idle" /\ Len(ops) > 0 => (ops[Len(ops)][1] = "budget" => st.cost >= ops[Len(ops)][2])
=============================================================================
