------------------------------ MODULE BoxPop -------------------------------
(* Populations of an algorithm inside a search box.  A coordinate is abstracted to   *)
(* its place relative to its bounds: 0 below, 1 on the lower bound, 2 strictly        *)
(* inside, 3 on the upper bound, 4 above, 5 not a number at all.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* cfg: n (size of the initial population), nd (variables), fin ("size": the final population has n members,
\*      "cur": the current population has), given (the initial population, as ids of its vectors)
InitSt(cfg) == [n |-> cfg.n, nd |-> cfg.nd, fin |-> cfg.fin, given |-> cfg.given, made |-> FALSE, steps |-> 0]

Inside(nd, ind) == Len(ind) = nd /\ \A j \in 1..nd : ind[j] \in 1..3
AllIn(nd, p) == \A i \in 1..Len(p) : Inside(nd, p[i])

Viol(st, e) ==
  (IF e.given # st.given THEN {"initial-population-altered"} ELSE {}) \cup
  (IF e.k = "new" THEN (IF st.made THEN {"made-twice"} ELSE {}) ELSE (IF st.made THEN {} ELSE {"not-made"})) \cup
  (IF AllIn(st.nd, e.cur) THEN {} ELSE {"current-population-outside-the-box"}) \cup
  (IF AllIn(st.nd, e.final) THEN {} ELSE {"final-population-outside-the-box"}) \cup
  (LET steps == st.steps + (IF e.k = "step" THEN 1 ELSE 0) IN
   IF steps = 0 THEN {} ELSE
   IF st.fin = "size" THEN (IF Len(e.final) # st.n THEN {"final-population-size"} ELSE {})
   ELSE (IF Len(e.cur) # st.n THEN {"current-population-size"} ELSE {}) \cup
        (IF Len(e.final) = 0 THEN {"final-population-empty"} ELSE {}))

Apply(st, e) == [st EXCEPT !.made = TRUE, !.steps = @ + (IF e.k = "step" THEN 1 ELSE 0)]
Complete(st) == IF st.made THEN {} ELSE {"never-made"}
=============================================================================
