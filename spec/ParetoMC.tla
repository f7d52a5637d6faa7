------------------------------ MODULE ParetoMC ------------------------------
(* Every multiset (as an ascending sequence) of at most MaxLen vectors over          *)
(* (0..V)^D: laws of dominance, layering and filtering; and scenario generation.      *)
EXTENDS ParetoCalls, Json
CONSTANTS V, D, MaxLen, MinLen, Gen
VARIABLES s
vars == <<s>>
Vecs == [1..D -> 0..V]
Key(v) == LET RECURSIVE K(_) K(j) == IF j = 0 THEN 0 ELSE K(j - 1) * (V + 1) + v[j] IN K(D)
Init == s = <<>>
Next == /\ Len(s) < MaxLen
        /\ \E v \in Vecs : /\ (IF Len(s) = 0 THEN TRUE ELSE Key(s[Len(s)]) <= Key(v))
                           /\ s' = Append(s, v)
                           /\ IF Gen /\ Len(s') >= MinLen THEN PrintT("GEN|" \o ToJson([set |-> s'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
S == Rng(s)
Irreflexive == \A a \in S : ~Dominates(a, a)
Asymmetric == \A a, b \in S : ~(Dominates(a, b) /\ Dominates(b, a))
Transitive == \A a, b, c \in S : Dominates(a, b) /\ Dominates(b, c) => Dominates(a, c)
\* every dominated element is dominated by a minimal one
Covered == \A a \in S \ Minimal(S) : \E b \in Minimal(S) : Dominates(b, a)
\* layer k: not dominated from outside layers 1..k-1, and (k > 1) dominated from layer k-1
LayerLaw == LET L == LayersOf(S) IN
   /\ UNION Rng(L) = S
   /\ \A k \in 1..Len(L) : \A a \in L[k] : /\ (k = 1 \/ \E b \in L[k - 1] : Dominates(b, a))
                                            /\ \A m \in k..Len(L) : \A b \in L[m] : ~Dominates(b, a)
CmpLaw == \A a, b \in S : Cmp(a, b) = -Cmp(b, a)
\* the specification rejects wrong results as well as accepting right ones
Decides == \A T \in SUBSET S : (LayerViol(s, <<Filter(s, T), Filter(s, S \ T)>>) = {})
                 <=> (T = Minimal(S) /\ Len(LayersOf(S)) = 2)
=============================================================================
