------------------------------- MODULE Config -------------------------------
(* How a command line selects simulations and how the parameters of a chain of         *)
(* algorithms are put together from layers, general to specific.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
\* ------------------------------------------------ selection: names are sequences of character codes
Lower(w) == [i \in 1..Len(w) |-> IF w[i] >= 65 /\ w[i] <= 90 THEN w[i] + 32 ELSE w[i]]
Selected(e) == {i \in 1..Len(e.names) : e.omitted \/ \E t \in Range(e.tokens) : Lower(t) = Lower(e.names[i])}
SelViol(e) ==
  (IF Range(e.got) # Selected(e) THEN {"selects-other-names"} ELSE {}) \cup
  (IF Len(e.got) # Cardinality(Range(e.got)) THEN {"selected-more-than-once"} ELSE {})

\* ------------------------------------------------ layers
\* 1 problem  2 sub-algorithm  3 algorithm defaults  4 algorithm with sub-algorithms  5 algorithm and problem
\* 6 algorithm, sub-algorithms and problem  7..10 initialisation functions: algorithm; with sub-algorithms;
\* with problem; with sub-algorithms and problem
Layers == 1..10
Unset == 0 - 1
\* defs: sequence of [l, p, op, v]; op "set" everywhere, "add" and "del" in initialisation functions only
Ops(defs, p, l) == SelectSeq(defs, LAMBDA d : d.l = l /\ d.p = p)
RECURSIVE Fold(_, _)
Fold(s, x) == IF s = <<>> THEN x
              ELSE Fold(Tail(s), CASE Head(s).op = "set" -> Head(s).v
                                   [] Head(s).op = "add" -> IF x = Unset THEN Head(s).v ELSE x + Head(s).v
                                   [] Head(s).op = "del" -> Unset)
RECURSIVE Upto(_, _, _)
Upto(defs, p, l) == IF l = 0 THEN Unset ELSE Fold(Ops(defs, p, l), Upto(defs, p, l - 1))
Value(defs, p) == Upto(defs, p, 10)

\* e.levels[j]: what the algorithm at position j of the chain was given: params: seq of [p, v] (every parameter named by
\* any layer or expected; v = Unset when absent), pop: value id, Unset-marker 0 when generated; size/inside describe it
LevelViol(c, j, r) ==
  LET defs == c.chain[j].defs IN
  (IF \E x \in Range(r.params) : x.v # Value(defs, x.p) THEN {"parameter-not-from-the-most-specific-layer"} ELSE {}) \cup
  (IF \E d \in Range(defs) : d.p # "population" /\ ~\E x \in Range(r.params) : x.p = d.p THEN {"parameter-unaccounted"} ELSE {}) \cup
  (IF Value(defs, "population") # Unset
     THEN IF r.pop # Value(defs, "population") THEN {"configured-population-not-used"} ELSE {}
     ELSE (IF r.pop # 0 THEN {"population-neither-configured-nor-generated"} ELSE {}) \cup
          (IF r.size # c.defsize THEN {"generated-population-of-another-size"} ELSE {}) \cup
          (IF ~r.inside THEN {"generated-population-out-of-bounds"} ELSE {})) \cup
  (IF ~r.base THEN {"problem-parameters-differ"} ELSE {}) \cup
  (IF r.driver # (j < Len(c.chain)) THEN {"sub-algorithm-missing-or-out-of-place"} ELSE {}) \cup
  (IF r.driver /\ ~r.adapter THEN {"wrong-message-adapter"} ELSE {})

Viable(c) == \A j \in 1..(Len(c.chain) - 1) : c.chain[j].adapter
PrepViol(c, e) ==
  IF ~Viable(c) THEN (IF e.result # "nv" THEN {"accepted-without-adapter"} ELSE {})
  ELSE IF e.result # "ok" THEN {"viable-configuration-rejected"}
  ELSE (IF Len(e.levels) # Len(c.chain) THEN {"chain-of-another-length"}
        ELSE UNION {LevelViol(c, j, e.levels[j]) : j \in 1..Len(c.chain)})

InitSt(cfg) == [cfg |-> cfg, n |-> 0]
Viol(st, e) == CASE e.k = "sel" -> SelViol(e) [] e.k = "prep" -> PrepViol(st.cfg, e) [] OTHER -> {"unknown"}
Apply(st, e) == [st EXCEPT !.n = @ + 1]
Complete(st) == IF st.n > 0 THEN {} ELSE {"nothing-observed"}
=============================================================================
