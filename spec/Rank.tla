-------------------------------- MODULE Rank --------------------------------
(* What the analysis commands say: indicator values, the statistics of repeated runs,   *)
(* which checkpoint represents an algorithm, who wins a comparison and who ties.         *)
(* Points are sequences of integers, populations sequences of points (order and copies   *)
(* may not matter where the definition does not say so); irrational values are compared  *)
(* by their squares, so that everything stays in the integers.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Sum(_), SumTo(_, _)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

(* ----- dominance ----- *)
Dominates(p, q) == (\A i \in 1..Len(p) : p[i] <= q[i]) /\ (\E i \in 1..Len(p) : p[i] < q[i])
NonDom(pop) == SelectSeq(pop, LAMBDA p : ~\E q \in Range(pop) : Dominates(q, p))
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) :
                   Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})

(* ----- indicators ----- *)
SqDist(p, q) == Sum([i \in 1..Len(p) |-> (p[i] - q[i]) * (p[i] - q[i])])
MinSq(p, S) == Min({SqDist(p, q) : q \in Range(S)})
\* the mean square distance from one set to the nearest points of the other, times the number of points
DistSum(from, to) == Sum(Map(LAMBDA p : MinSq(p, to), from))
L1(p, q) == Sum([i \in 1..Len(p) |-> Abs(p[i] - q[i])])
Gaps(s) == [i \in 1..Len(s) |-> Min({L1(s[i], s[j]) : j \in (1..Len(s)) \ {i}})]
\* spacing squared, times n (n - 1)
SpacingSq(s) == IF Len(s) < 2 THEN 0
                ELSE LET g == Gaps(s) IN Len(s) * Sum(Map(LAMBDA x : x * x, g)) - Sum(g) * Sum(g)
Extent(s) == Sum([i \in 1..Len(s[1]) |-> Max({p[i] : p \in Range(s)}) - Min({p[i] : p \in Range(s)})])
Eps(s, front) == Max({Min({Max({f[k] - p[k] : k \in 1..Len(p)}) : f \in Range(front)}) : p \in Range(s)})
Share(nd, S) == Cardinality(Range(nd) \cap S)

BadInd(e) ==
  LET nd == NonDom(e.pop)
      f == e.front
      n == Len(nd)
      gd == DistSum(nd, f)
      igd == DistSum(f, e.pop)
      Bad(name, got, want) == IF got = want THEN {} ELSE {name} IN
  IF ~SameBag(nd, e.nd) THEN {"not-the-non-dominated-part"}
  ELSE Bad("generational-distance", e.gd, gd)
       \cup Bad("inverse-generational-distance", e.igd, igd)
       \cup Bad("hausdorff-distance", e.ahd, Max({gd * Len(f), igd * n}))
       \cup Bad("epsilon", e.eps, Eps(nd, f))
       \cup Bad("extent", e.ext, Extent(e.pop))
       \cup Bad("spacing", e.spc, SpacingSq(nd))
       \cup Bad("non-domination-ratio", e.ndr, n)
       \cup Bad("dominance-ratio", e.pdi, Share(nd, Range(e.all)))

(* ----- statistics of repeated runs ----- *)
\* four times the quarter points, by linear interpolation in the sorted data
Quarter(x, q) == LET pos == q * (Len(x) - 1)
                     i == pos \div 4
                     r == pos % 4 IN
                 IF r = 0 THEN 4 * x[i + 1] ELSE (4 - r) * x[i + 1] + r * x[i + 2]
BadStat(e) ==
  LET x == e.sorted
      n == Len(x)
      s == Sum(x)
      q1 == Quarter(x, 1)
      q3 == Quarter(x, 3)
      iq == q3 - q1
      li == 2 * q1 - 3 * iq      \* eight times the fences
      ui == 2 * q3 + 3 * iq
      lo == 2 * q1 - 6 * iq
      uo == 2 * q3 + 6 * iq
      Extr == Cardinality({i \in 1..n : 8 * x[i] < lo \/ 8 * x[i] > uo})
      Mild == Cardinality({i \in 1..n : 8 * x[i] < li \/ 8 * x[i] > ui}) - Extr
      inner == SelectSeq(x, LAMBDA y : li <= 8 * y /\ 8 * y <= ui)
      var == n * Sum(Map(LAMBDA y : y * y, x)) - s * s       \* n^2 times the variance
      Far(y) == (n * y - s) * (n * y - s) > 9 * var
      Edge(y) == var > 0 /\ (n * y - s) * (n * y - s) = 9 * var
      within == Cardinality({i \in 1..n : ~Far(x[i])})
      edges == Cardinality({i \in 1..n : Edge(x[i])})
      Bad(name, ok) == IF ok THEN {} ELSE {name} IN
  Bad("mean", e.mean = s /\ e.score = s)
  \cup Bad("interval-outside-the-data", e.lo <= e.hi /\ 1000 * x[1] <= e.lo /\ e.hi <= 1000 * x[n])
  \cup Bad("fences", e.fences = <<li, ui, lo, uo>>)
  \cup Bad("outliers", e.mild = Mild /\ e.extr = Extr)
  \cup Bad("mean-without-outliers", inner # <<>> /\ e.inner[1] * Len(inner) = Sum(inner) * e.inner[2])
  \cup Bad("deviation", e.var = var)
  \cup Bad("suspicious", IF 100 * within < 95 * n THEN ~e.good
                         ELSE IF 100 * (within - edges) < 95 * n THEN TRUE ELSE e.good)

(* ----- the checkpoint that represents an algorithm ----- *)
Allowance == 500
\* cps: sequence of [b, c]: budget and the sequence of costs of the runs (no costs: acceptable anyway)
Fits(cp, limit) == cp.c = <<>> \/ Sum(cp.c) <= Len(cp.c) * limit
Acceptable(cps) == LET last == cps[Len(cps)].b
                       ok == {i \in 1..Len(cps) : Fits(cps[i], last + Allowance)} IN
                   IF ok = {} THEN 0 ELSE Max(ok)
BadAccept(e) == (IF e.got = Acceptable(e.cps) THEN {} ELSE {"checkpoint-of-the-budget"}) \cup
                (IF e.valid = [i \in 1..Len(e.cps) |-> Fits(e.cps[i], e.cps[i].b + Allowance)] THEN {} ELSE {"cost-validation"})

(* ----- comparisons: scores are fractions <<num, den>>, rate in per mille ----- *)
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
Lt(a, b) == ~Le(b, a)
Larger(a, b) == IF Le(a, b) THEN b ELSE a
Smaller(a, b) == IF Le(a, b) THEN a ELSE b
\* sq: the fractions are squares of the scores
Keep(rate, sq) == IF sq THEN <<((1000 - rate) * (1000 - rate)) \div 100, 10000>> ELSE <<1000 - rate, 1000>>
TimesLe(a, k, b) == a[1] * b[2] * k[1] <= b[1] * a[2] * k[2]      \* a * k <= b
Close(a, b, rate, sq) == TimesLe(Larger(a, b), Keep(rate, sq), Smaller(a, b))
\* exactly at the tolerance: rounding decides
Brink(a, b, rate, sq) == /\ ~(Le(a, b) /\ Le(b, a))
                         /\ LET k == Keep(rate, sq)
                                l == Larger(a, b)
                                m == Smaller(a, b) IN l[1] * m[2] * k[1] = m[1] * l[2] * k[2]
BadTies(e) ==
  LET Must == {i \in 1..Len(e.scores) : i # e.win /\ Close(e.scores[i], e.scores[e.win], e.rate, FALSE) /\ ~Brink(e.scores[i], e.scores[e.win], e.rate, FALSE)}
      May == {i \in 1..Len(e.scores) : i # e.win /\ Close(e.scores[i], e.scores[e.win], e.rate, FALSE)} IN
  IF Must \subseteq Range(e.got) /\ Range(e.got) \subseteq May /\ Len(e.got) = Cardinality(Range(e.got)) THEN {} ELSE {"ties"}

(* ----- whole rankings -----                                                           *)
(* cfg.probs: sequence of [front, sq, algos]; algos: sequence of checkpoint sequences    *)
(* [b, c, pops] (pops[r]: objective vectors of run r); sq: single runs, squares compared *)
Metrics == {"ahd", "gd", "igd", "hypervolume", "pdi", "spacing"}
Linear == {"hypervolume", "pdi"}
Rate(m) == IF m \in Linear THEN 5 ELSE 50
MaxWins(m) == m \in Linear
HV == INSTANCE Hypervol
RefPoint == [i \in 1..2 |-> 50]
\* twice the root of a / b
Root2(a, b) == CHOOSE k \in 0..400 : b * k * k = 4 * a
RECURSIVE FracSum(_)
FracSum(s) == IF Len(s) = 1 THEN s[1]
              ELSE LET r == FracSum(Tail(s)) IN <<s[1][1] * r[2] + r[1] * s[1][2], s[1][2] * r[2]>>
Joint(P, b, r) == LET all == UNION {UNION {Range(P.algos[a][i].pops[r]) : i \in {j \in 1..Len(P.algos[a]) : P.algos[a][j].b = b /\ Len(P.algos[a][j].pops) >= r}}
                                    : a \in 1..Len(P.algos)} IN
                  {p \in all : ~\E q \in all : Dominates(q, p)}
SqOf(m, pop, f) == LET nd == NonDom(pop)
                       g == <<DistSum(nd, f), Len(nd)>>
                       h == <<DistSum(f, pop), Len(f)>> IN
                   CASE m = "gd" -> g [] m = "igd" -> h [] m = "ahd" -> Larger(g, h)
                     [] m = "spacing" -> <<SpacingSq(nd), IF Len(nd) < 2 THEN 1 ELSE Len(nd) * (Len(nd) - 1)>>
OneRun(P, m, b, r, pop) ==
  IF m = "hypervolume" THEN <<HV!Volume(Range(pop), RefPoint), 1>>
  ELSE IF m = "pdi" THEN <<Share(NonDom(pop), Joint(P, b, r)), Cardinality(Joint(P, b, r))>>
  ELSE IF P.sq THEN SqOf(m, pop, P.front)
  ELSE LET x == SqOf(m, pop, P.front) IN <<Root2(x[1], x[2]), 2>>
Score(P, m, cp) == LET s == FracSum([r \in 1..Len(cp.pops) |-> OneRun(P, m, cp.b, r, cp.pops[r])]) IN <<s[1], s[2] * Len(cp.pops)>>
IsSq(P, m) == P.sq /\ m \notin Linear
\* sc: function from the competing algorithms to their scores
Best(m, sc) == {a \in DOMAIN sc : \A b \in DOMAIN sc : IF MaxWins(m) THEN Le(sc[b], sc[a]) ELSE Le(sc[a], sc[b])}
Tied(P, m, sc) == LET w == CHOOSE a \in Best(m, sc) : TRUE IN
                  Best(m, sc) \cup {a \in DOMAIN sc : Close(sc[a], sc[w], Rate(m), IsSq(P, m))}
OnBrink(P, m, sc) == LET w == CHOOSE a \in Best(m, sc) : TRUE IN \E a \in DOMAIN sc : Brink(sc[a], sc[w], Rate(m), IsSq(P, m))
Points(a, tied) == IF a \notin tied THEN 0 ELSE IF Cardinality(tied) = 1 THEN 2 ELSE 1

\* the algorithms represented in a ranking of P and their checkpoints
Represented(P) == {a \in 1..Len(P.algos) : P.algos[a] # <<>> /\ Acceptable(P.algos[a]) # 0}
RankScores(P, m) == [a \in Represented(P) |-> Score(P, m, P.algos[a][Acceptable(P.algos[a])])]
\* e.won: sequence of [p, m, w]; e.total: sequence of [m, pts: sequence of <<a, points>> in the printed order]
BadRank(cfg, e) ==
  LET Q == {p \in 1..Len(cfg.probs) : Represented(cfg.probs[p]) # {}}
      want == {<<p, m>> : p \in Q, m \in Metrics}
      got == {<<x.p, x.m>> : x \in Range(e.won)}
      S == [p \in Q |-> [m \in Metrics |-> RankScores(cfg.probs[p], m)]]
      T == [p \in Q |-> [m \in Metrics |-> Tied(cfg.probs[p], m, S[p][m])]]
      Algos == UNION {T[p][m] : p \in Q, m \in Metrics}
      RECURSIVE Tot(_, _, _)
      Tot(R, m, a) == IF R = {} THEN 0 ELSE LET p == CHOOSE p \in R : TRUE IN Points(a, T[p][m]) + Tot(R \ {p}, m, a)
      Fuzzy(m) == \E p \in Q : OnBrink(cfg.probs[p], m, S[p][m]) IN
  (IF got # want \/ Len(e.won) # Cardinality(want) THEN {"problems-or-indicators-ranked"}
   ELSE (IF \E x \in Range(e.won) : x.w \notin Best(x.m, S[x.p][x.m]) THEN {"winner"} ELSE {})
        \cup (IF {x.m : x \in Range(e.total)} # (IF Q = {} THEN {} ELSE Metrics) THEN {"global-ranking-indicators"} ELSE {})
        \cup (IF \E x \in Range(e.total) : ~Fuzzy(x.m) /\
                    {<<y[1], y[2]>> : y \in Range(x.pts)} # {<<a, Tot(Q, x.m, a)>> : a \in {b \in Algos : Tot(Q, x.m, b) > 0}}
              THEN {"points"} ELSE {})
        \cup (IF \E x \in Range(e.total) : \E i \in 1..(Len(x.pts) - 1) : x.pts[i][2] < x.pts[i + 1][2] THEN {"order-of-the-global-ranking"} ELSE {}))

\* the detailed ranking: at every budget the winners over the problems, among the checkpoints within their own allowance
AtBudget(P, b) == {a \in 1..Len(P.algos) : \E i \in 1..Len(P.algos[a]) : P.algos[a][i].b = b /\ Fits(P.algos[a][i], b + Allowance)}
CpAt(P, a, b) == P.algos[a][CHOOSE i \in 1..Len(P.algos[a]) : P.algos[a][i].b = b]
BadDetailed(cfg, e) ==
  LET Bs == UNION {UNION {{cp.b : cp \in Range(cfg.probs[p].algos[a])} : a \in 1..Len(cfg.probs[p].algos)} : p \in 1..Len(cfg.probs)}
      Ps(b) == {p \in 1..Len(cfg.probs) : AtBudget(cfg.probs[p], b) # {}}
      B(p, m, b) == Best(m, [a \in AtBudget(cfg.probs[p], b) |-> Score(cfg.probs[p], m, CpAt(cfg.probs[p], a, b))])
      want == {<<b, m>> : b \in {x \in Bs : Ps(x) # {}}, m \in Metrics}
      Bad(x) == LET best == [p \in Ps(x.b) |-> B(p, x.m, x.b)]
                    Low(a) == Cardinality({p \in Ps(x.b) : best[p] = {a}})
                    High(a) == Cardinality({p \in Ps(x.b) : a \in best[p]})
                    Cnt(a) == LET h == {y \in Range(x.pts) : y[1] = a} IN IF h = {} THEN 0 ELSE (CHOOSE y \in h : TRUE)[2] IN
                \/ Sum(Map(LAMBDA y : y[2], x.pts)) # Cardinality(Ps(x.b))
                \/ \E a \in UNION {best[p] : p \in Ps(x.b)} \cup {y[1] : y \in Range(x.pts)} : Cnt(a) < Low(a) \/ Cnt(a) > High(a) IN
  (IF {<<x.b, x.m>> : x \in Range(e.rows)} # want \/ Len(e.rows) # Cardinality(want) THEN {"budgets-or-indicators-ranked"}
   ELSE IF \E x \in Range(e.rows) : Bad(x) THEN {"winners-at-a-budget"} ELSE {})

\* the table: winner and ties of each problem and indicator at the one budget it shows
BadTable(cfg, e) ==
  LET Rep(P) == {a \in 1..Len(P.algos) : \E i \in 1..Len(P.algos[a]) : P.algos[a][i].b = e.budget}
      Q == {p \in 1..Len(cfg.probs) : Rep(cfg.probs[p]) # {}}
      S(p, m) == [a \in Rep(cfg.probs[p]) |-> Score(cfg.probs[p], m, CpAt(cfg.probs[p], a, e.budget))]
      want == {<<p, m>> : p \in Q, m \in Metrics} IN
  IF {<<x.p, x.m>> : x \in Range(e.won)} # want \/ Len(e.won) # Cardinality(want) THEN {"problems-or-indicators-in-the-table"}
  ELSE (IF \E x \in Range(e.won) : x.w \notin Best(x.m, S(x.p, x.m)) THEN {"winner"} ELSE {})
       \cup (IF \E x \in Range(e.won) : LET P == cfg.probs[x.p]
                                            s == S(x.p, x.m) IN
                   ~OnBrink(P, x.m, s) /\ {x.w} \cup Range(x.ties) # Tied(P, x.m, s) THEN {"ties"} ELSE {})

InitSt(cfg) == [cfg |-> cfg, n |-> 0]
Viol(st, e) == CASE e.k = "ind" -> BadInd(e)
                 [] e.k = "stat" -> BadStat(e)
                 [] e.k = "accept" -> BadAccept(e)
                 [] e.k = "ties" -> BadTies(e)
                 [] e.k = "rank" -> BadRank(st.cfg, e)
                 [] e.k = "detailed" -> BadDetailed(st.cfg, e)
                 [] e.k = "table" -> BadTable(st.cfg, e)
Apply(st, e) == [st EXCEPT !.n = @ + 1]
Complete(st) == IF st.n > 0 THEN {} ELSE {"nothing-observed"}
=============================================================================
