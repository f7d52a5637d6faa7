----------------------------- MODULE HypervolMC -----------------------------
(* Slices against counting cells, for every set of up to K points of a small grid, and *)
(* what follows: no dependence on dominated points, growth with the set.                *)
EXTENDS Hypervol, Json
CONSTANTS M, G, R, K, Gen, SkipTies
VARIABLES s, done
Grid == [1..M -> 0..G]
Ref == [i \in 1..M |-> R]
Cells == [1..M -> 0..(R - 1)]
Count(S) == Cardinality({c \in Cells : \E p \in S : \A i \in 1..M : p[i] <= c[i]})
\* negative control: slices that leave out points tied in the last objective
Wrong(S) == LET T == {p \in S : \A q \in S : q[M] = p[M] => (q = p \/ q[1] >= p[1])} IN Volume(T, Ref)
V(S) == IF SkipTies THEN Wrong(S) ELSE Volume(S, Ref)
Init == s = {} /\ done = FALSE
Add == ~done /\ Cardinality(s) < K /\ \E p \in Grid : p \notin s /\ s' = s \cup {p} /\ UNCHANGED done
Next == Add
Spec == Init /\ [][Next]_<<s, done>>
Agree == V(s) = Count(s)
Dominated == {p \in s : \E q \in s : q # p /\ \A i \in 1..M : q[i] <= p[i]}
NoWeight == V(s) = V(s \ Dominated) /\ V(s) = V(Below(s, Ref))
Emit == Gen => PrintT("GEN|" \o ToJson([pts |-> s, m |-> M, r |-> R]))
=============================================================================
