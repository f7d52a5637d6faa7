------------------------------- MODULE RankMC -------------------------------
(* Small-bounds theorems of Rank: the backwards scan with a growing allowance finds the *)
(* checkpoint that the definition names; indicators do not depend on order, distances    *)
(* vanish exactly when the points are met, ties are what is left of the winners.          *)
EXTENDS Rank, Json
CONSTANTS Mode, Grow, Gen, G, K
VARIABLES x, pos, delta, got
vars == <<x, pos, delta, got>>
Budgets == {100, 500, 1300}
Costs == {<<0>>, <<600>>, <<601>>, <<1000, 1001>>, <<1800>>, <<1500, 2100>>, <<1801>>}
Cps == {[b |-> b, c |-> c] : b \in Budgets, c \in Costs}
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i].b < s[i + 1].b
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Grid == {<<a, b>> : a \in 0..G, b \in 0..G}
Init == CASE Mode = "scan" -> /\ x \in {s \in Seqs(Cps, 1, 3) : Ascending(s)}
                             /\ pos = Len(x) /\ delta = Allowance /\ got = 0 - 1
          [] Mode = "ind" -> /\ x \in [pop : Seqs(Grid, 1, K), front : Seqs(Grid, 1, 2)]
                            /\ pos = 0 /\ delta = 0 /\ got = 0
          [] Mode = "ties" -> /\ x \in [scores : [1..3 -> {0, 18, 19, 20, 21, 400}], m : {"gd", "pdi"}]
                             /\ pos = 0 /\ delta = 0 /\ got = 0
\* the scan: from the last checkpoint back, what a checkpoint leaves of the budget is added to the allowance
Scan == /\ Mode = "scan" /\ got = 0 - 1
        /\ IF pos = 0 THEN got' = 0 /\ UNCHANGED <<x, pos, delta>>
           ELSE LET d == IF pos = Len(x) \/ ~Grow THEN delta ELSE delta + (x[pos + 1].b - x[pos].b) IN
                IF Fits(x[pos], x[pos].b + d) THEN got' = pos /\ UNCHANGED <<x, pos, delta>>
                ELSE pos' = pos - 1 /\ delta' = d /\ UNCHANGED <<x, got>>
\* two points of the population change places
Swap == /\ Mode = "ind"
        /\ \E i \in 1..(Len(x.pop) - 1) : x' = [x EXCEPT !.pop[i] = x.pop[i + 1], !.pop[i + 1] = x.pop[i]]
        /\ UNCHANGED <<pos, delta, got>>
Next == Scan \/ Swap
Spec == Init /\ [][Next]_vars
Found == Mode = "scan" /\ got # 0 - 1 => got = Acceptable(x)
Ind(s, f) == LET nd == NonDom(s) IN <<DistSum(nd, f), Len(nd), DistSum(f, s), Eps(nd, f), Extent(s), SpacingSq(nd), Share(nd, Range(f))>>
NoOrder == [][Mode = "ind" => Ind(x'.pop, x'.front) = Ind(x.pop, x.front)]_vars
Met == Mode = "ind" =>
  LET nd == NonDom(x.pop) IN
  /\ (DistSum(nd, x.front) = 0) = (Range(nd) \subseteq Range(x.front))
  /\ (DistSum(x.front, x.pop) = 0) = (Range(x.front) \subseteq Range(x.pop))
  /\ nd # <<>> /\ SpacingSq(nd) >= 0
  /\ Share(nd, Range(NonDom(x.pop \o x.front))) <= Cardinality(Range(NonDom(x.pop \o x.front)))
  \* no point of the part compared lies further above the front than the indicator says
  /\ \A p \in Range(nd) : \E f \in Range(x.front) : \A k \in 1..2 : f[k] <= p[k] + Eps(nd, x.front)
P == [sq |-> FALSE]
Sc == [a \in 1..3 |-> <<x.scores[a], 1>>]
Ties == Mode = "ties" =>
  LET t == Tied(P, x.m, Sc) IN
  /\ Best(x.m, Sc) \subseteq t /\ Best(x.m, Sc) # {}
  \* as good as a tie is a tie
  /\ \A a \in t, b \in 1..3 : (IF MaxWins(x.m) THEN x.scores[b] >= x.scores[a] ELSE x.scores[b] <= x.scores[a]) => b \in t
Emit == Gen => (CASE Mode = "scan" -> (got = 0 - 1 /\ pos = Len(x)) => PrintT("GEN|" \o ToJson(x))
                  [] Mode = "ind" -> PrintT("GEN|" \o ToJson(x))
                  [] OTHER -> TRUE)
=============================================================================
