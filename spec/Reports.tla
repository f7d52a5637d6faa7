------------------------------ MODULE Reports ------------------------------
(* What the reporting commands show of a folder of results: the summary, the statistics, *)
(* the curves over time, the score summary, the fronts and the violins.  Results come,   *)
(* go and change; every report must show the results as they then are: each stored      *)
(* value in its own place (problem, algorithm, checkpoint, run), none left out, none      *)
(* from elsewhere.  Values are doubled, so that everything stays in the integers.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSet(_, _)
SumSet(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F(x) + SumSet(F, S \ {x})

(* cfg.contents: seq of [x, y, g, dom, cost]: the non-dominated point (x, y), at distance g   *)
(* from the origin, and if dom the point (x+8, y+8) too; of two such points the nearer one    *)
(* is nowhere worse; the reference front is the origin.  cfg.dims[p] objectives       *)
(* (further ones are 0).  cfg.styled: the algorithms plots have a style for;                *)
(* cfg.budgets: the numbers of the checkpoints, growing.                                     *)
InitSt(cfg) == [cfg |-> cfg, res |-> {}, runs |-> {}]
At(S, p, a, r, b) == {x \in S : x.p = p /\ x.a = a /\ x.r = r /\ x.b = b}
Cont(st, x) == st.cfg.contents[x.d]
No(st, x) == Cardinality({q \in st.runs : q[1] = x.p /\ q[2] = x.a /\ q[3] <= x.r})
Peers(st, x) == {y \in st.res : y.p = x.p /\ y.b = x.b /\ No(st, y) = No(st, x)}
Apply(st, e) ==
  CASE e.k = "put" -> [st EXCEPT !.res = (@ \ At(@, e.p, e.a, e.r, e.b)) \cup {[p |-> e.p, a |-> e.a, r |-> e.r, b |-> e.b, d |-> e.d]},
                                 !.runs = @ \cup {<<e.p, e.a, e.r>>}]
    [] e.k = "del" -> [st EXCEPT !.res = @ \ At(@, e.p, e.a, e.r, e.b)]
    [] e.k = "delrun" -> [st EXCEPT !.res = {x \in @ : ~(x.p = e.p /\ x.a = e.a /\ x.r = e.r)}, !.runs = @ \ {<<e.p, e.a, e.r>>}]
    [] OTHER -> st

(* ----- the value of an indicator for one result, doubled ----- *)
Power(x, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN x ELSE x * x
Val2(st, m, x) ==
  LET c == Cont(st, x) IN
  CASE m = "cost" -> 2 * c.cost
    [] m \in {"gd", "igd", "ahd"} -> 2 * c.g
    [] m = "epsilon" -> IF st.cfg.dims[x.p] > 2 THEN 0 ELSE 0 - 2 * Min({c.x, c.y})
    [] m = "extent" -> IF c.dom THEN 8 ELSE 0
    [] m = "spacing" -> 0
    [] m = "ndr" -> IF c.dom THEN 1 ELSE 2
    [] m = "hypervolume" -> 2 * (50 - c.x) * (50 - c.y) * Power(50, st.cfg.dims[x.p] - 2)
    [] m = "pdi" -> IF \A y \in Peers(st, x) : Cont(st, y).g >= c.g THEN 2 ELSE 0
All == {"cost", "gd", "igd", "ahd", "epsilon", "extent", "spacing", "ndr", "hypervolume", "pdi"}
Compared == {"gd", "igd", "ahd", "spacing", "hypervolume", "pdi"}
Sum2(st, m, S) == SumSet(LAMBDA x : Val2(st, m, x), S)

(* ----- checkpoints ----- *)
Cp(st, p, a, b) == {x \in st.res : x.p = p /\ x.a = a /\ x.b = b}
Cps(st) == {<<x.p, x.a, x.b>> : x \in st.res}
Pairs(st) == {<<x.p, x.a>> : x \in st.res}
Allowance == 500
\* the checkpoint that represents an algorithm: the latest whose mean cost is within the allowance of the last one
Accepted(st, p, a) == LET Bs == {x.b : x \in {y \in st.res : y.p = p /\ y.a = a}}
                          lim == st.cfg.budgets[Max(Bs)] + Allowance
                          ok == {b \in Bs : SumSet(LAMBDA x : Cont(st, x).cost, Cp(st, p, a, b)) <= Cardinality(Cp(st, p, a, b)) * lim} IN
                      IF ok = {} THEN 0 ELSE Max(ok)
Shown(st) == {q \in Pairs(st) : Accepted(st, q[1], q[2]) # 0}
Rep(st, q) == Cp(st, q[1], q[2], Accepted(st, q[1], q[2]))
Styled(st, a) == a \in Range(st.cfg.styled)

(* ----- base-two logarithms of n / d >= 1, times 4096 ----- *)
RECURSIVE Double(_, _, _), Bits(_, _, _, _), LogBits(_, _, _)
\* <<how often d can be doubled, the result>>
Double(n, d, k) == IF n < 2 * d THEN <<k, d>> ELSE Double(n, 2 * d, k + 1)
Bits(rem, d, m, i) == IF i = 0 THEN m ELSE IF 2 * rem >= d THEN Bits(2 * rem - d, d, 2 * m + 1, i - 1) ELSE Bits(2 * rem, d, 2 * m, i - 1)
LogBits(m, acc, i) == IF i = 0 THEN acc
                      ELSE LET s == (m * m) \div 16384 IN
                           IF s >= 32768 THEN LogBits(s \div 2, 2 * acc + 1, i - 1) ELSE LogBits(s, 2 * acc, i - 1)
Log2(n, d) == LET z == Double(n, d, 0) IN z[1] * 4096 + LogBits(Bits(n - z[2], z[2], 1, 14), 0, 12)
Near(x, y, tol) == x - y <= tol /\ y - x <= tol

(* ----- the reports ----- *)
Bad(name, ok) == IF ok THEN {} ELSE {name}
Once(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)

\* e.rows: seq of <<p, a, b, n>>
BadSummary(st, e) == Bad("summary", Once(e.rows, {<<q[1], q[2], q[3], Cardinality(Cp(st, q[1], q[2], q[3]))>> : q \in Cps(st)}))

\* e.rows: seq of [p, a, b, m, n, mean, lo, hi] (thousandths)
BadStats(st, e) ==
  Bad("statistics-of-other-results", {<<x.p, x.a, x.b, x.m>> : x \in Range(e.rows)} = {<<q[1], q[2], q[3], m>> : q \in Cps(st), m \in All}
                                     /\ Len(e.rows) = 10 * Cardinality(Cps(st)))
  \cup UNION {LET S == Cp(st, x.p, x.a, x.b)
                  V == {Val2(st, x.m, y) : y \in S}
                  n == Cardinality(S) IN
              IF S = {} THEN {} ELSE
              Bad("number-of-runs", x.n = n)
              \cup Bad("mean", Near(n * 2 * x.mean, 1000 * Sum2(st, x.m, S), 2 * n))
              \cup Bad("interval", x.lo <= x.hi /\ 1000 * Min(V) <= 2 * x.lo + 2 /\ 2 * x.hi <= 1000 * Max(V) + 2) : x \in Range(e.rows)}

\* e.figs: seq of [p, m, clipped, out, lines: seq of [a, pts: seq of <<t, mean in hundredths>>]]
BadTime(st, e) ==
  LET Lines == UNION {{[p |-> f.p, m |-> f.m, a |-> f.lines[i].a, pts |-> f.lines[i].pts] : i \in 1..Len(f.lines)} : f \in Range(e.figs)}
      Want == {<<q[1], m, q[2]>> : q \in {z \in Pairs(st) : Styled(st, z[2])}, m \in Compared}
      Got == {<<l.p, l.m, l.a>> : l \in Lines}
      Bs(l) == {x.b : x \in {y \in st.res : y.p = l.p /\ y.a = l.a}} IN
  Bad("curves-left-out", Want \subseteq Got)
  \cup Bad("curves-of-nothing", \A l \in Lines : <<l.p, l.a>> \in Pairs(st) /\ l.m \in Compared)
  \cup Bad("one-curve-each", SumSet(LAMBDA i : Len(e.figs[i].lines), 1..Len(e.figs)) = Cardinality(Got))
  \cup Bad("points-outside-the-plot", \A f \in Range(e.figs) : f.clipped = 0)
  \cup Bad("written-elsewhere", \A f \in Range(e.figs) : f.out)
  \cup UNION {IF <<l.p, l.a>> \notin Pairs(st) \/ l.m \notin Compared THEN {} ELSE
              Bad("checkpoints-of-the-curve", [i \in 1..Len(l.pts) |-> l.pts[i][1]] =
                    [i \in 1..Cardinality(Bs(l)) |-> st.cfg.budgets[CHOOSE b \in Bs(l) : Cardinality({c \in Bs(l) : c <= b}) = i]])
              \cup Bad("values-of-the-curve", \A i \in 1..Len(l.pts) : \A b \in Bs(l) :
                    l.pts[i][1] = st.cfg.budgets[b] =>
                      LET S == Cp(st, l.p, l.a, b) IN Near(2 * Cardinality(S) * l.pts[i][2], 100 * Sum2(st, l.m, S), 2 * Cardinality(S))) : l \in Lines}

\* e.figs: seq of [m, labels, out, dots: seq of [a, pts: seq of <<p, y>>], lines: likewise]; y in 4096ths (of a binary logarithm: pdi)
BadScores(st, e) ==
  LET Probs == {q[1] : q \in Pairs(st)}
      Mean(m, q) == LET S == Rep(st, q) IN <<Sum2(st, m, S), 2 * Cardinality(S)>>
      Lg(m, q) == LET z == Mean(m, q) IN Log2(z[1] + z[2], z[2])
      Top(m, p) == Max({Lg(m, q) : q \in {z \in Shown(st) : z[1] = p}})
      Right(m, q, y) == IF m = "pdi" THEN Near(y, Lg(m, q), 20)
                        ELSE IF Top(m, q[1]) = 0 THEN y = 0
                        ELSE Near(y * (Top(m, q[1]) \div 16), 256 * Lg(m, q), 40 * (Top(m, q[1]) \div 16))
      Dots(f) == UNION {{<<f.dots[i].a, f.dots[i].pts[j][1], f.dots[i].pts[j][2]>> : j \in 1..Len(f.dots[i].pts)} : i \in 1..Len(f.dots)}
      Count(f) == SumSet(LAMBDA i : Len(f.dots[i].pts), 1..Len(f.dots))
      Want == {q \in Shown(st) : Styled(st, q[2])} IN
  Bad("figures-left-out", Shown(st) = {} \/ Once([i \in 1..Len(e.figs) |-> e.figs[i].m], Compared))
  \cup Bad("written-elsewhere", \A f \in Range(e.figs) : f.out)
  \cup UNION {Bad("score-left-out", Want \subseteq {<<d[2], d[1]>> : d \in Dots(f)})
              \cup Bad("score-of-nothing", {<<d[2], d[1]>> : d \in Dots(f)} \subseteq Shown(st))
              \cup Bad("one-score-each", Count(f) = Cardinality({<<d[2], d[1]>> : d \in Dots(f)}))
              \cup Bad("problem-without-a-place", Probs \subseteq Range(f.labels) /\ Len(f.labels) = Cardinality(Range(f.labels)))
              \cup Bad("score", \A d \in Dots(f) : <<d[2], d[1]>> \notin Shown(st) \/ Right(f.m, <<d[2], d[1]>>, d[3]))
              \cup Bad("selected", \A i \in 1..Len(f.lines) : f.lines[i].a \in Range(st.cfg.selected) /\
                     \E j \in 1..Len(f.dots) : f.dots[j].a = f.lines[i].a /\ f.dots[j].pts = f.lines[i].pts)
              \cup Bad("selected-left-out", \A a \in Range(st.cfg.selected) : (\E q \in Want : q[2] = a) => \E i \in 1..Len(f.lines) : f.lines[i].a = a)
              : f \in Range(e.figs)}

\* e.figs: seq of [p, out, front, dots: seq of [a, pts]]
BadFronts(st, e) ==
  LET Origin(p) == [i \in 1..st.cfg.dims[p] |-> 0]
      Pt(p, s, c) == [i \in 1..st.cfg.dims[p] |-> IF i = 1 THEN c.x + s ELSE IF i = 2 THEN c.y + s ELSE 0]
      First(q) == CHOOSE x \in Rep(st, q) : \A y \in Rep(st, q) : x.r <= y.r
      Pop(q) == LET c == Cont(st, First(q)) IN {Pt(q[1], 0, c)} \cup (IF c.dom THEN {Pt(q[1], 8, c)} ELSE {})
      Drawn(f) == {q \in Shown(st) : q[1] = f.p} IN
  Bad("figures-left-out", {q[1] : q \in Pairs(st)} \subseteq {f.p : f \in Range(e.figs)} /\ Len(e.figs) = Cardinality({f.p : f \in Range(e.figs)}))
  \cup Bad("written-elsewhere", \A f \in Range(e.figs) : f.out)
  \cup UNION {Bad("reference-front", Range(f.front) = {Origin(f.p)})
              \cup Bad("front-left-out", \A q \in Drawn(f) : Styled(st, q[2]) => \E i \in 1..Len(f.dots) : f.dots[i].a = q[2])
              \cup Bad("one-front-each", Len(f.dots) = Cardinality({f.dots[i].a : i \in 1..Len(f.dots)}))
              \cup Bad("front-of-other-results", \A i \in 1..Len(f.dots) : <<f.p, f.dots[i].a>> \in Drawn(f) /\ Range(f.dots[i].pts) = Pop(<<f.p, f.dots[i].a>>))
              : f \in Range(e.figs)}

\* e.figs: seq of [p, m, out, algos, data]: data[i] the (doubled) values of the runs of algos[i]
BadViolin(st, e) ==
  LET Vals(m, q) == [x \in Rep(st, q) |-> Val2(st, m, x)]
      Same(s, f) == Len(s) = Cardinality(DOMAIN f) /\ \A v \in Range(s) \cup {f[x] : x \in DOMAIN f} :
                      Cardinality({i \in 1..Len(s) : s[i] = v}) = Cardinality({x \in DOMAIN f : f[x] = v})
      Want(m) == {q \in Shown(st) : Styled(st, q[2]) /\ \E x \in Rep(st, q) : Val2(st, m, x) # 0}
      Has(q, m) == \E i \in 1..Len(e.figs) : e.figs[i].p = q[1] /\ e.figs[i].m = m /\ q[2] \in Range(e.figs[i].algos) IN
  Bad("violin-left-out", \A m \in Compared : \A q \in Want(m) : Has(q, m))
  \cup Bad("written-elsewhere", \A f \in Range(e.figs) : f.out)
  \cup Bad("one-figure-each", Cardinality({<<f.p, f.m>> : f \in Range(e.figs)}) = Len(e.figs))
  \cup UNION {Bad("violin-without-a-name", Len(f.algos) = Len(f.data) /\ Len(f.algos) = Cardinality(Range(f.algos)))
              \cup Bad("violin-of-nothing", f.m \in Compared /\ \A a \in Range(f.algos) : <<f.p, a>> \in Shown(st))
              \cup Bad("violin-of-other-results", \A i \in 1..Len(f.algos) :
                     (f.m \in Compared /\ <<f.p, f.algos[i]>> \in Shown(st)) => Same(f.data[i], Vals(f.m, <<f.p, f.algos[i]>>)))
              : f \in Range(e.figs)}

Viol(st, e) ==
  CASE e.k = "summary" -> BadSummary(st, e)
    [] e.k = "stats" -> BadStats(st, e)
    [] e.k = "pictures" -> BadTime(st, e)
    [] e.k = "pictures_summary" -> BadScores(st, e)
    [] e.k = "best_fronts" -> BadFronts(st, e)
    [] e.k = "violin" -> BadViolin(st, e)
    [] e.k = "list" -> Bad("list", Once(e.algos, Range(e.wanta)) /\ Once(e.probs, Range(e.wantp)))
    [] OTHER -> {}
Complete(st) == {}
=============================================================================
