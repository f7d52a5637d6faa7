---------------------------- MODULE CostCountMC ----------------------------
(* A generic evolutionary loop: a population of candidates, of which some are in    *)
(* the cache at the start; each step produces candidates (new ones or copies),      *)
(* evaluates those not in the cache and charges for them; an algorithm may or may   *)
(* not add its evaluations to the cache.                                            *)
EXTENDS CostCount, Json, SequencesExt
CONSTANTS N, MaxOps, MaxOff, Gen
VARIABLES st, cached0, cached, next, ops, paid, writes
vars == <<st, cached0, cached, next, ops, paid, writes>>
RECURSIVE Flag(_, _, _)
\* evaluations in order; with writes, an evaluated candidate is cached for the next one
Flag(s, c, w) == IF s = <<>> THEN <<>>
                 ELSE (IF Head(s) \in c THEN <<>> ELSE <<<<Head(s), 0>>>>)
                      \o Flag(Tail(s), IF w THEN c \cup {Head(s)} ELSE c, w)
Ev(k, s) == LET ev == Flag(s, cached, writes) IN
            [k |-> k, evals |-> ev, counts |-> <<Len(ev), Len(ev)>>, cost |-> st.cost + Len(ev),
             \* what it would show as its final population: everything submitted so far that it does not find in the cache
             fin |-> SetToSeq((1..(next - 1)) \ cached)]
Do(k, s) == LET e == Ev(k, s) IN
            /\ Viol(st, e) = {} /\ st' = Apply(st, e) /\ paid' = paid + Len(e.evals)
            /\ cached' = IF writes THEN cached \cup {s[i] : i \in 1..Len(s)} ELSE cached
            /\ ops' = Append(ops, k)
Init == /\ st = InitSt([mode |-> "each"]) /\ cached0 \in SUBSET (1..N) /\ cached = cached0
        /\ next = N + 1 /\ ops = <<>> /\ paid = 0 /\ writes \in BOOLEAN
Start == ops = <<>> /\ Do("init", [i \in 1..N |-> i]) /\ UNCHANGED <<cached0, next, writes>>
Step == /\ ops # <<>> /\ Len(ops) < MaxOps
        /\ \E n \in 0..MaxOff, c \in 0..1 :
             /\ Do("step", [i \in 1..(n + c) |-> IF i <= n THEN next + i - 1 ELSE 1])
             /\ next' = next + n /\ UNCHANGED <<cached0, writes>>
Read == ops # <<>> /\ Len(ops) < MaxOps /\ Do("read", <<>>) /\ UNCHANGED <<cached0, next, writes>>
Done == /\ Gen /\ Len(ops) = MaxOps /\ writes /\ next = N + 1
        /\ PrintT("GEN|" \o ToJson([cached |-> [i \in 1..N |-> IF i \in cached0 THEN 1 ELSE 0], ops |-> ops]))
        /\ UNCHANGED vars
Next == Start \/ Step \/ Read \/ Done
Spec == Init /\ [][Next]_vars
CostIsEvaluations == st.cost = paid
CachedFree == writes => st.cost = Cardinality(cached \ cached0)
=============================================================================
