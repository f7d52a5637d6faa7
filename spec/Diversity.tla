----------------------------- MODULE Diversity ------------------------------
(* Which of the candidates that Pareto dominance leaves undecided survive: every     *)
(* algorithm's own measure of diversity.  A pool of candidates (offered: numbers     *)
(* into the table obj) is cut to n; the rule says which bags may be kept.            *)
(*   "crowding"   NSGA-II, JGBL: in the layer that does not fit, the least crowded    *)
(*   "volume"     SMS-EMOA: the last layer's least exclusive hypervolume goes         *)
(*   "strength"   SPEA2: too many non-dominated ones - the one closest to the others  *)
(*                goes, again and again; too few - filled by strength and density     *)
(*   "lines"      NSGA-III: ranked by theta fitness among those nearest to the same   *)
(*                reference line; whole ranks in order, any of the last one            *)
(*   "indicator"  IBEA: the worst additive epsilon fitness goes, again and again      *)
(* Objective values are whole numbers; ties may be resolved either way.               *)
EXTENDS Pareto
HV == INSTANCE Hypervol

Pos(O) == 1..Len(O)
Sum(f, S) == LET RECURSIVE s(_) s(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + s(T \ {x}) IN s(S)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* layer number of every position
LayerOf(O) == LET L == LayersOf(Rng(O)) IN [i \in Pos(O) |-> CHOOSE k \in 1..Len(L) : O[i] \in L[k]]

---- \* crowding
\* L: the positions of one layer.  Decided only when no two of them share a value in any objective.
Plain(O, L) == \A i, j \in L : i # j => \A m \in 1..Len(O[i]) : O[i][m] # O[j][m]
Spread(O, L, m) == MaxOf({O[i][m] : i \in L}) - MinOf({O[i][m] : i \in L})
RECURSIVE Product(_, _, _)
Product(O, L, ms) == IF ms = {} THEN 1 ELSE LET m == CHOOSE m \in ms : TRUE IN Spread(O, L, m) * Product(O, L, ms \ {m})
Best(O, L, i) == \E m \in 1..Len(O[i]) : \A j \in L : O[i][m] <= O[j][m]
\* times the product of all spreads; the worst in an objective counts twice its distance to its neighbour
Gap(O, L, i, m) ==
  LET below == {O[j][m] : j \in {j \in L : O[j][m] < O[i][m]}}
      above == {O[j][m] : j \in {j \in L : O[j][m] > O[i][m]}} IN
  IF above = {} THEN 2 * (O[i][m] - MaxOf(below)) ELSE MinOf(above) - MaxOf(below)
Crowd(O, L, i) ==
  LET M == 1..Len(O[i]) IN Sum([m \in M |-> Gap(O, L, i, m) * Product(O, L, M \ {m})], M)
LessCrowded(O, L, x, y) ==  \* x is preferred to y or both are equally crowded
  IF Best(O, L, x) THEN TRUE ELSE IF Best(O, L, y) THEN FALSE ELSE Crowd(O, L, x) >= Crowd(O, L, y)
CrowdingOk(O, ids, K) ==
  LET lay == LayerOf(O)
      out == {i \in Pos(O) : Count(K, ids[i]) < Count(ids, ids[i])}
      in == {i \in Pos(O) : Count(K, ids[i]) > 0} IN
  \A d \in out : \A x \in in : lay[d] = lay[x] =>
     LET L == {i \in Pos(O) : lay[i] = lay[d]} IN
     \/ ~Plain(O, L) \/ Cardinality(L) < 3 \/ LessCrowded(O, L, x, d)

---- \* exclusive hypervolume
WithoutAt(O, i) == {O[j] : j \in Pos(O) \ {i}}
Exclusive(O, L, i, ref) == HV!Volume({O[j] : j \in L}, ref) - HV!Volume({O[j] : j \in L \ {i}}, ref)
VolumeGoes(O, ref) ==
  LET lay == LayerOf(O)
      L == {i \in Pos(O) : lay[i] = MaxOf({lay[j] : j \in Pos(O)})} IN
  {i \in L : \A j \in L : Exclusive(O, L, i, ref) <= Exclusive(O, L, j, ref)}

---- \* strength and nearest neighbours
Sq(a, b) == LET f == [m \in 1..Len(a) |-> (a[m] - b[m]) * (a[m] - b[m])] IN Sum(f, 1..Len(a))
\* all squared distances
SqAll(O) == TLCEval([i \in Pos(O) |-> TLCEval([j \in Pos(O) |-> Sq(O[i], O[j])])])
RECURSIVE SeqOver(_, _)
SeqOver(f, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<f[x]>> \o SeqOver(f, S \ {x})
\* distances from i to the others of S, ascending
Dists(D, S, i) == SortSeq(SeqOver(D[i], S \ {i}), LAMBDA x, y : x < y)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Closest(D, S) == LET N == TLCEval([i \in S |-> Dists(D, S, i)]) IN {i \in S : \A j \in S : ~LexLess(N[j], N[i])}
Strength(O) == TLCEval([i \in Pos(O) |-> Cardinality({j \in Pos(O) : Dominates(O[i], O[j])})])
Raw(O) == LET s == Strength(O) IN TLCEval([i \in Pos(O) |-> Sum(s, {j \in Pos(O) : Dominates(O[j], O[i])})])
Root(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
\* squared distance to the k-th nearest, the candidate itself being the zeroth
Kth(O) == LET D == SqAll(O) IN TLCEval([i \in Pos(O) |-> LET d == <<0>> \o Dists(D, Pos(O), i) IN d[Root(Len(O)) + 1]])
StrengthOk(O, ids, K) ==
  LET r == Raw(O)  s == Kth(O)
      out == {i \in Pos(O) : Count(K, ids[i]) < Count(ids, ids[i])}
      in == {i \in Pos(O) : Count(K, ids[i]) > 0} IN
  \A d \in out : \A x \in in : r[x] < r[d] \/ (r[x] = r[d] /\ s[x] >= s[d])

---- \* additive epsilon indicator; decided when every objective spans the same range
SameSpan(O) == LET M == 1..Len(O[1]) IN
  /\ \A m \in M : Spread(O, Pos(O), m) = Spread(O, Pos(O), 1)
  /\ Spread(O, Pos(O), 1) > 0
Eps(a, b) == MaxOf({a[m] - b[m] : m \in 1..Len(a)})
\* how often every value of the indicator occurs, the most harmful (most negative) first
EpsAll(O) == TLCEval([i \in Pos(O) |-> TLCEval([j \in Pos(O) |-> Eps(O[j], O[i])])])
Harm(M, R, S, i) == [q \in 1..(2 * R + 1) |-> Cardinality({j \in S \ {i} : M[i][j] = q - 1 - R})]
Worst(M, R, S) == LET H == TLCEval([i \in S |-> TLCEval(Harm(M, R, S, i))]) IN {i \in S : \A j \in S : ~LexLess(H[i], H[j])}

---- \* reference lines
\* rej[v], proj[v]: distance from every line and along it, of obj[v], in millionths; v \in ids.
\* Decided when every candidate is nearer to one line than to the others, and the fitness of any two of a line differs (or they are equal).
Tol == 20
Line(rej, v) == LET R == rej[v] IN CHOOSE l \in 1..Len(R) : \A k \in 1..Len(R) : R[l] <= R[k]
Clear(rej, v) == LET R == rej[v]  l == Line(rej, v) IN \A k \in 1..Len(R) : k = l \/ R[k] > R[l] + Tol
LinesJudged(e, theta) ==
  LET V == Rng(e.offered)
      l == TLCEval([v \in V |-> Line(e.rej, v)])
      f == TLCEval([v \in V |-> e.proj[v][l[v]] + theta * e.rej[v][l[v]]]) IN
  /\ \A v \in V : Clear(e.rej, v)
  /\ \A v, w \in V : l[v] # l[w] \/ e.obj[v] = e.obj[w] \/ f[v] > f[w] + Tol \/ f[w] > f[v] + Tol
LinesOk(e, theta) ==
  LET V == Rng(e.offered)
      l == TLCEval([v \in V |-> Line(e.rej, v)])
      f == TLCEval([v \in V |-> e.proj[v][l[v]] + theta * e.rej[v][l[v]]])
      rank == TLCEval([v \in V |-> 1 + Cardinality({e.obj[w] : w \in {w \in V : l[w] = l[v] /\ f[w] + Tol < f[v]}})])
      out == {v \in V : Count(e.kept, v) < Count(e.offered, v)}
      in == {v \in V : Count(e.kept, v) > 0} IN
  \A d \in out : \A x \in in : rank[d] >= rank[x]

---- \* removing one after the other
\* bags kept are compared through their objective vectors: equal vectors are interchangeable for the measures
Goes(rule, M, R, S) == IF rule = "indicator" THEN Worst(M, R, S) ELSE Closest(M, S)
RECURSIVE Shrink(_, _, _, _, _)
Shrink(rule, M, R, Ss, n) ==
  IF \A S \in Ss : Cardinality(S) <= n THEN Ss
  ELSE Shrink(rule, M, R, TLCEval(UNION {{S \ {i} : i \in Goes(rule, M, R, S)} : S \in Ss}), n)
Survivors(rule, O, Ss, n) ==
  IF rule = "indicator" THEN Shrink(rule, EpsAll(O), Spread(O, Pos(O), 1), Ss, n) ELSE Shrink(rule, SqAll(O), 0, Ss, n)
BagOf(O, S) == [v \in {O[i] : i \in S} |-> Cardinality({i \in S : O[i] = v})]
KeptBag(obj, K) == [v \in {obj[K[i]] : i \in 1..Len(K)} |-> Cardinality({i \in 1..Len(K) : obj[K[i]] = v})]

NonDominated(O) == {i \in Pos(O) : O[i] \in Minimal(Rng(O))}
Judged(rule, O, n) ==
  /\ Len(O) > n
  /\ rule = "indicator" => SameSpan(O)
DiversityOk(rule, O, ids, obj, K, n, ref) ==
  CASE rule = "crowding" -> CrowdingOk(O, ids, K)
    [] rule = "volume" -> KeptBag(obj, K) \in {BagOf(O, Pos(O) \ {i}) : i \in VolumeGoes(O, ref)}
    [] rule = "strength" ->
         IF Cardinality(NonDominated(O)) > n
         THEN KeptBag(obj, K) \in {BagOf(O, S) : S \in Survivors(rule, O, {NonDominated(O)}, n)}
         ELSE StrengthOk(O, ids, K)
    [] rule = "indicator" -> KeptBag(obj, K) \in {BagOf(O, S) : S \in Survivors(rule, O, {Pos(O)}, n)}

InitSt(cfg) == [theta |-> IF "theta" \in DOMAIN cfg THEN cfg.theta ELSE 5, n |-> cfg.n, rule |-> cfg.rule, ref |-> cfg.ref, cuts |-> 0]
Viol(st, e) ==
  LET O == [i \in 1..Len(e.offered) |-> e.obj[e.offered[i]]] IN
  IF ~SubBag(e.kept, e.offered) THEN {"kept-a-candidate-never-offered"}
  ELSE IF Len(e.kept) # (IF Len(O) < st.n THEN Len(O) ELSE st.n) THEN {"not-the-population-size"}
  ELSE IF st.rule = "lines" THEN (IF Len(O) > st.n /\ LinesJudged(e, st.theta) /\ ~LinesOk(e, st.theta) THEN {"against-the-lines-rule"} ELSE {})
  ELSE IF Judged(st.rule, O, st.n) /\ ~DiversityOk(st.rule, O, e.offered, e.obj, e.kept, st.n, st.ref) THEN {"against-the-" \o st.rule \o "-rule"} ELSE {}
Apply(st, e) == [st EXCEPT !.cuts = @ + 1]
Complete(st) == IF st.cuts = 0 /\ st.rule # "lines" THEN {"no-selection-observed"} ELSE {}
=============================================================================
