---------------------------- MODULE ParetoCalls -----------------------------
(* The operations on objective vectors that the platform offers, as calls with their *)
(* results.                                                                            *)
EXTENDS Pareto

InitSt(cfg) == [n |-> 0]

\* a three-way comparison: 1, -1 or 0
Cmp(a, b) == IF Dominates(a, b) THEN 1 ELSE IF Dominates(b, a) THEN -1 ELSE 0

LayerViol(set, layers) ==
  LET L == LayersOf(Rng(set)) IN
  (IF ~SameBag(Flatten(layers), set) THEN {"layers-do-not-partition-the-input"} ELSE
   IF Len(layers) # Len(L) THEN {"wrong-number-of-layers"} ELSE
   IF \E i \in 1..Len(L) : Rng(layers[i]) # L[i] THEN {"element-in-wrong-layer"} ELSE {})

\* best first: the layer numbers along the sequence never decrease
RankViol(set, seq) ==
  IF ~SameBag(seq, set) THEN {"ranking-is-not-a-permutation"}
  ELSE IF \E i \in 1..(Len(seq) - 1) : LayerNo(Rng(set), seq[i]) > LayerNo(Rng(set), seq[i + 1])
       THEN {"ranking-out-of-order"} ELSE {}

Viol(st, e) ==
  CASE e.k = "dom" -> (IF e.r # Dominates(e.a, e.b) THEN {"dominance-" \o e.impl} ELSE {})
    [] e.k = "cmp" -> (IF e.r # Cmp(e.a, e.b) THEN {"comparison-" \o e.impl} ELSE {})
    [] e.k = "weak" -> (IF e.r # (\A j \in 1..Len(e.a) : e.a[j] <= e.b[j]) THEN {"weak-dominance-" \o e.impl} ELSE {})
    [] e.k = "layers" -> {v \o "-" \o e.impl : v \in LayerViol(e.set, e.r)}
    [] e.k = "rank" -> {v \o "-" \o e.impl : v \in RankViol(e.set, e.r)}
    [] e.k = "filter" -> (IF ~SameBag(e.r, Filter(e.set, Minimal(Rng(e.set)))) THEN {"filter-" \o e.impl} ELSE {})
    \* a filter that merges repetitions
    [] e.k = "filterset" -> (IF Rng(e.r) # Minimal(Rng(e.set)) \/ Len(e.r) # Cardinality(Rng(e.r)) THEN {"filter-" \o e.impl} ELSE {})
    \* the first layer only (nominated delegates)
    [] e.k = "first" -> (IF ~SameBag(e.r, Filter(e.set, Minimal(Rng(e.set)))) THEN {"first-layer-" \o e.impl} ELSE {})
    [] OTHER -> {"unexpected-" \o e.k}
Apply(st, e) == [st EXCEPT !.n = @ + 1]
Complete(st) == {}
=============================================================================
