----------------------------- MODULE BoxPopMC ------------------------------
(* A swarm moving and individuals being varied in an integer box [Lo, Hi]: every      *)
(* move is followed by clamping; selection keeps N of the union.  Checks that the     *)
(* populations satisfy BoxPop, and enumerates initial populations (place of each      *)
(* coordinate) with operation sequences for the real algorithms.                      *)
EXTENDS BoxPop, Json
CONSTANTS Lo, Hi, N, ND, MaxOps, Gen
VARIABLES st, pop, init, ops
vars == <<st, pop, init, ops>>
Code(x) == IF x < Lo THEN 0 ELSE IF x = Lo THEN 1 ELSE IF x < Hi THEN 2 ELSE IF x = Hi THEN 3 ELSE 4
CodeP(p) == [i \in 1..Len(p) |-> [j \in 1..ND |-> Code(p[i][j])]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clamp(x) == Min(Hi, Max(Lo, x))
Vecs == [1..ND -> Lo..Hi]
Ev(k, p) == [k |-> k, given |-> init, cur |-> CodeP(p), final |-> CodeP(p)]
Init == /\ init \in [1..N -> [1..ND -> {Lo, Lo + 1, Hi}]] /\ pop = <<>> /\ ops = <<>>
        /\ st = InitSt([n |-> N, nd |-> ND, fin |-> "size", given |-> init])
New == /\ ~st.made /\ Viol(st, Ev("new", init)) = {} /\ st' = Apply(st, Ev("new", init)) /\ pop' = init /\ UNCHANGED <<init, ops>>
\* one individual moves by any displacement and is clamped; or is replaced by another member (selection with copies)
Move == \E i \in 1..N, d \in [1..ND -> -2..2] :
          pop' = [pop EXCEPT ![i] = [j \in 1..ND |-> Clamp(pop[i][j] + d[j])]]
Copy == \E i, j \in 1..N : pop' = [pop EXCEPT ![i] = pop[j]]
Step == /\ st.made /\ Len(ops) < MaxOps /\ ~Gen /\ (Move \/ Copy)
        /\ Viol(st, Ev("step", pop')) = {} /\ st' = Apply(st, Ev("step", pop')) /\ ops' = Append(ops, "step") /\ UNCHANGED init
Done == /\ Gen /\ st.made /\ ops = <<>> /\ ops' = <<"done">>
        /\ PrintT("GEN|" \o ToJson([init |-> CodeP(init)])) /\ UNCHANGED <<st, pop, init>>
Next == New \/ Step \/ Done
Spec == Init /\ [][Next]_vars
InBox == \A i \in 1..Len(pop) : \A j \in 1..ND : pop[i][j] \in Lo..Hi
Able == st.made => Viol(st, Ev("step", pop)) = {}
=============================================================================
