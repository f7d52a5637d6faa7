------------------------------ MODULE Elitist -------------------------------
(* Environmental selection: a pool of candidates, each with its objective vector, is *)
(* cut down to the population size.  Candidates are numbers into the table obj;      *)
(* repeated numbers are repeated candidates.                                          *)
(*   mode "size"      : only size and sub-multiset (theta dominance, NSGA-III)          *)
(*   mode "indicator" : no discarded candidate dominates a kept one                   *)
(*   mode "fronts"    : moreover a dominated candidate is kept only when every         *)
(*                      non-dominated one is                                          *)
(*   mode "layers"    : moreover whole Pareto layers are kept before the next one      *)
EXTENDS Pareto

InitSt(cfg) == [n |-> cfg.n, mode |-> cfg.mode, cuts |-> 0]

\* obj: table; offered, extra, kept: sequences of candidate numbers.
\* extra: candidates that may have been offered as well.
Discarded(offered, kept) == {i \in Rng(offered) : Count(kept, i) < Count(offered, i)}
DiscardOk(obj, offered, kept) ==
   \A d \in Discarded(offered, kept) : \A x \in Rng(kept) : ~Dominates(obj[d], obj[x])
FrontOk(obj, offered, extra, kept) ==
   LET known == {obj[i] : i \in Rng(offered) \cup Rng(extra)}
       best  == Minimal(known)
       keptdom == \E x \in Rng(kept) : \E y \in Rng(offered) : Dominates(obj[y], obj[x]) IN
   keptdom => \A d \in Discarded(offered, kept) : obj[d] \notin best
LayerOk(obj, offered, kept) ==
   LET L == LayersOf({obj[i] : i \in Rng(offered)})
       No(v) == CHOOSE k \in 1..Len(L) : v \in L[k] IN
   \A d \in Discarded(offered, kept) : \A x \in Rng(kept) : No(obj[x]) <= No(obj[d])

Viol(st, e) ==
  CASE e.k = "cut" ->
     LET o == e.offered  x == e.extra  k == e.kept  obj == e.obj IN
     (IF e.full /\ Len(k) # st.n THEN {"not-the-population-size"} ELSE {}) \cup
     (IF ~SubBag(k, o \o x) THEN {"kept-a-candidate-never-offered"} ELSE
      (IF st.mode # "size" /\ ~DiscardOk(obj, o, k) THEN {"discarded-dominates-kept"} ELSE {}) \cup
      (IF st.mode \in {"fronts", "layers"} /\ ~FrontOk(obj, o, x, k) THEN {"non-dominated-lost-for-a-dominated"} ELSE {}) \cup
      (IF st.mode = "layers" /\ x = <<>> /\ ~LayerOk(obj, o, k) THEN {"layer-skipped"} ELSE {}))
    [] OTHER -> {"unexpected-" \o e.k}
Apply(st, e) == [st EXCEPT !.cuts = @ + 1]
Complete(st) == IF st.cuts = 0 THEN {"no-selection-observed"} ELSE {}
=============================================================================
