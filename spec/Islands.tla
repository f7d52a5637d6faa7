------------------------------ MODULE Islands -------------------------------
(* The island model: dealing out, epochs of equal length, migration along a           *)
(* neighbourhood.  Individuals are numbers; equal individuals carry equal numbers.     *)
EXTENDS Pareto

InitSt(cfg) == [n |-> cfg.islands, m |-> cfg.migrants, len |-> cfg.len, adj |-> cfg.adj,
                cur |-> <<>>, dealt |-> FALSE, epochs |-> 0]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sizes(ps) == {Len(ps[i]) : i \in 1..Len(ps)}

DealViol(st, e) ==
  (IF Len(e.islands) # st.n THEN {"wrong-number-of-islands"} ELSE {}) \cup
  (IF ~SameBag(Flatten(e.islands), e.given) THEN {"dealing-lost-or-copied-an-individual"} ELSE {}) \cup
  (IF \E a, b \in Sizes(e.islands) : a - b > 1 THEN {"island-sizes-differ-by-more-than-one"} ELSE {})

\* how many members of island j after migration come from island i's population before it
Came(e, i, j) == Cardinality({q \in 1..Len(e.after[j]) : e.after[j][q] \in Rng(e.before[i])})
EpochViol(st, e) ==
  (IF \E i \in 1..st.n : e.steps[i] # st.len THEN {"wrong-number-of-steps-in-an-epoch"} ELSE {}) \cup
  (IF ~SameBag(Flatten(e.before), Flatten(e.after)) THEN {"migration-lost-or-copied-an-individual"} ELSE {}) \cup
  (IF \E i \in 1..st.n : Len(e.before[i]) # Len(e.after[i]) THEN {"island-changed-size"} ELSE {}) \cup
  (IF e.cost # SumSeq(e.costs) THEN {"cost-is-not-the-sum-of-the-islands"} ELSE {}) \cup
  (IF e.reported # e.cost THEN {"reported-cost-is-not-the-cost"} ELSE {}) \cup
  (IF e.uniq /\ \E i, j \in 1..st.n : i # j /\ Came(e, i, j) # (IF j \in Rng(st.adj[i]) THEN st.m ELSE 0)
     THEN {"wrong-number-of-migrants-between-two-islands"} ELSE {})
Viol(st, e) ==
  CASE e.k = "deal" -> IF st.dealt THEN {"dealt-twice"} ELSE DealViol(st, e)
    [] e.k = "epoch" -> IF ~st.dealt THEN {"epoch-before-deal"} ELSE EpochViol(st, e)
    [] OTHER -> {"unexpected-" \o e.k}
Apply(st, e) ==
  CASE e.k = "deal" -> [st EXCEPT !.dealt = TRUE, !.cur = e.islands]
    [] e.k = "epoch" -> [st EXCEPT !.cur = e.after, !.epochs = @ + 1]
Complete(st) == IF st.epochs = 0 THEN {"no-epoch-observed"} ELSE {}
=============================================================================
