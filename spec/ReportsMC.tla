----------------------------- MODULE ReportsMC -----------------------------
(* How the reports are put together: the folders are walked in whatever order the file   *)
(* system gives (problems, and algorithms within a problem); for the score summary each  *)
(* algorithm's checkpoint is looked for from the latest to the earliest, its score noted, *)
(* and after each problem that problem's scores are divided by the best of them.          *)
(* OwnOnly = FALSE divides every score noted so far (negative control).                  *)
EXTENDS Reports, Json, Randomization
CONSTANTS NP, NA, NR, NB, Contents, MaxOps, OwnOnly, Gen
C2 == << [x |-> 0, y |-> 0, g |-> 0, dom |-> FALSE, cost |-> 600], [x |-> 9, y |-> 12, g |-> 15, dom |-> TRUE, cost |-> 1700] >>
C6 == [i \in 1..6 |-> [x |-> 0, y |-> 0, g |-> 0, dom |-> FALSE, cost |-> 0]]
Cfg == [contents |-> Contents, dims |-> [p \in 1..NP |-> 2], styled |-> [a \in 1..NA |-> a], selected |-> <<1>>, budgets |-> [b \in 1..NB |-> 500 * b]]
VARIABLES st, todo, cur, left, rows, scores, ops, phase
vars == <<st, todo, cur, left, rows, scores, ops, phase>>
Slots == {[p |-> p, a |-> a, r |-> r, b |-> b] : p \in 1..NP, a \in 1..NA, r \in 1..NR, b \in 1..NB}
Store(f) == LET R == {[p |-> s.p, a |-> s.a, r |-> s.r, b |-> s.b, d |-> f[s]] : s \in {z \in Slots : f[z] # 0}} IN
            [cfg |-> Cfg, res |-> R, runs |-> {<<x.p, x.a, x.r>> : x \in R}]
Init == /\ IF Gen THEN st = InitSt(Cfg) ELSE \E f \in [Slots -> 0..Len(Contents)] : st = Store(f)
        /\ todo = {q[1] : q \in Pairs(st)} /\ cur = 0 /\ left = {} /\ rows = <<>> /\ scores = {} /\ ops = <<>> /\ phase = "walk"
Enter == /\ cur = 0 /\ \E p \in todo : cur' = p /\ todo' = todo \ {p} /\ left' = {q[2] : q \in {z \in Pairs(st) : z[1] = p}}
         /\ UNCHANGED <<st, rows, scores, ops, phase>>
\* the checkpoints of the pair, growing
Sorted(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y <= x}) = i]
RECURSIVE Scan(_, _, _, _)
Scan(p, a, bs, i) == IF i = 0 THEN 0
                     ELSE LET S == Cp(st, p, a, bs[i])
                              lim == Allowance + Cfg.budgets[bs[Len(bs)]] IN
                          IF SumSet(LAMBDA x : Cont(st, x).cost, S) <= Cardinality(S) * lim THEN bs[i] ELSE Scan(p, a, bs, i - 1)
Visit == \E a \in left :
  LET bs == Sorted({x.b : x \in {y \in st.res : y.p = cur /\ y.a = a}})
      w == Scan(cur, a, bs, Len(bs))
      S == Cp(st, cur, a, w) IN
  /\ left' = left \ {a}
  /\ rows' = rows \o [i \in 1..Len(bs) |-> <<cur, a, bs[i], Cardinality(Cp(st, cur, a, bs[i]))>>]
  /\ scores' = IF w = 0 THEN scores ELSE scores \cup {[p |-> cur, a |-> a, raw |-> Log2(Sum2(st, "gd", S) + 2 * Cardinality(S), 2 * Cardinality(S)), by |-> <<>>]}
  /\ UNCHANGED <<st, todo, cur, ops, phase>>
Leave == /\ cur # 0 /\ left = {} /\ cur' = 0
         /\ LET own == {s \in scores : s.p = cur} IN
            scores' = IF own = {} THEN scores
                      ELSE LET top == Max({s.raw : s \in own}) IN
                           {IF OwnOnly /\ s.p # cur THEN s ELSE [s EXCEPT !.by = Append(@, top)] : s \in scores}
         /\ UNCHANGED <<st, todo, left, rows, ops, phase>>
Finish == cur = 0 /\ todo = {} /\ phase = "walk" /\ phase' = "done" /\ UNCHANGED <<st, todo, cur, left, rows, scores, ops>>
Next == (cur = 0 /\ Enter) \/ (cur # 0 /\ Visit) \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars

Ratio(s) == IF s.by = <<>> THEN 0 - 1 ELSE IF Len(s.by) > 1 THEN 0 - 2 ELSE IF s.by[1] = 0 THEN 0 ELSE (4096 * s.raw) \div s.by[1]
RowsRight == phase = "done" => BadSummary(st, [rows |-> rows]) = {}
ScoresRight ==
  phase = "done" =>
    LET dots == [a \in 1..NA |-> LET P == Sorted({s.p : s \in {z \in scores : z.a = a}}) IN
                  [a |-> a, pts |-> [i \in 1..Len(P) |-> <<P[i], Ratio(CHOOSE s \in scores : s.a = a /\ s.p = P[i])>>]]]
        fig(m) == [m |-> m, labels |-> [i \in 1..NP |-> i], out |-> TRUE, dots |-> dots, lines |-> <<dots[1]>>]
        \* the scores of the modelled indicator only
        V == BadScores(st, [figs |-> <<fig("gd")>>]) IN
    V \subseteq {"figures-left-out"}

\* the histories alone
Do(e, o) == st' = Apply(st, e) /\ ops' = Append(ops, o) /\ UNCHANGED <<todo, cur, left, rows, scores, phase>>
GenNext == /\ Len(ops) < MaxOps
           /\ \/ \E p \in 1..NP, a \in 1..NA, b \in 1..NB, r \in 1..NR : \E d \in RandomSubset(1, 1..Len(Contents)) :
                   Do([k |-> "put", p |-> p, a |-> a, r |-> r, b |-> b, d |-> d], <<"put", p, a, r, b, d>>)
              \/ \E x \in RandomSubset(IF st.res = {} THEN 0 ELSE 1, st.res) : Do([k |-> "del", p |-> x.p, a |-> x.a, r |-> x.r, b |-> x.b], <<"del", x.p, x.a, x.r, x.b, 0>>)
              \/ \E q \in RandomSubset(IF st.runs = {} THEN 0 ELSE 1, st.runs) : Do([k |-> "delrun", p |-> q[1], a |-> q[2], r |-> q[3]], <<"delrun", q[1], q[2], q[3], 0, 0>>)
              \/ \E w \in 1..4 : (IF ops = <<>> THEN TRUE ELSE ops[Len(ops)][1] # "report") /\ (w = 1 \/ Len(ops) > 7) /\ Do([k |-> "report"], <<"report", 0, 0, 0, 0, 0>>)
GenSpec == Init /\ [][GenNext]_vars
Emit == (Gen /\ Len(ops) = MaxOps) => PrintT("GEN|" \o ToJson([ops |-> ops]))
=============================================================================
