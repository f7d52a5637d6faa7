------------------------------ MODULE DistLife ------------------------------
(* The rules of Hgs for the distributed strategy: the demes that survived the progress  *)
(* check are compared in an order that is not fixed, and every ripe deme may sprout.    *)
EXTENDS Hgs

\* alive after the progress check; ripe and close
AliveSet(t) == {i \in 1..N(t) : t.nodes[i].alive}
Near(t, i, j) == i # j /\ t.nodes[i].lvl = t.nodes[j].lvl /\ Close(t, t.nodes[i].lvl, t.nodes[i].x, t.nodes[j].x)
RipeClose(t, i) == \E j \in 1..N(t) : ~t.nodes[j].alive /\ t.nodes[j].ripe /\ Near(t, i, j)
\* everything reachable from S inside A over closeness
RECURSIVE Spread(_, _, _)
Spread(t, A, S) == LET S2 == S \cup {i \in A : \E j \in S : Near(t, i, j)} IN IF S2 = S THEN S ELSE Spread(t, A, S2)
\* K is what redundancy killed under some order of comparison
RedundantViol(t, K) ==
  LET A == AliveSet(t)  kept == A \ K
      grounded == Spread(t, A, kept \cup {i \in A : RipeClose(t, i)}) IN
  (IF \E i \in kept : RipeClose(t, i) \/ \E j \in kept : Near(t, i, j) THEN {"deme-should-have-died"} ELSE {}) \cup
  (IF \E i \in K : ~RipeClose(t, i) /\ ~\E j \in A : Near(t, i, j) THEN {"deme-died-without-reason"} ELSE {}) \cup
  (IF K \ grounded # {} THEN {"no-deme-of-a-group-survived"} ELSE {})

\* sprouts of a level with single-member populations sit exactly on their delegates
OnDelegates(t, l) == l <= 2 /\ t.cfg.sizes[l + 1] = 1
DSproutViol(t, e) ==
   UNION {LET mine == SelectSeq([q \in 1..Len(e.parents) |-> q], LAMBDA q : e.parents[q] = i)
              fr == Free(t, i)
              ss == [z \in 1..Len(mine) |-> e.starts[mine[z]]]
              lvl1 == t.nodes[i].lvl + 1
              nw == {q \in 1..Len(e.parents) : e.lvls[q] = lvl1} IN
          (IF Len(mine) > MaxSprouts(t, i) THEN
             (IF ~t.nodes[i].ripe THEN {"deme-that-is-not-ripe-sprouted"} ELSE {"too-many-sprouts"}) ELSE {}) \cup
          (IF /\ Len(mine) < MaxSprouts(t, i) /\ OnDelegates(t, lvl1)
              /\ \E z \in 1..Len(fr) : ~\E q \in nw : Close(t, lvl1, fr[z], e.starts[q])
             THEN {"sprout-missing"} ELSE {}) \cup
          (IF \E s \in Rng(ss) : Count(ss, s) > Count(t.nodes[i].del, s) THEN {"sprout-away-from-its-parents-delegates"} ELSE
           IF \E s \in Rng(ss) : Count(ss, s) > Count(fr, s) THEN {"sprout-around-a-redundant-delegate"} ELSE {})
          : i \in 1..N(t)} \cup
   (IF \E q \in 1..Len(e.parents) : e.parents[q] \notin 1..N(t) THEN {"sprout-without-parent"} ELSE
    IF \E q \in 1..Len(e.parents) : e.lvls[q] # t.nodes[e.parents[q]].lvl + 1 THEN {"sprout-on-the-wrong-level"} ELSE
    IF \E q \in 1..Len(e.parents) : e.sizes[q] # t.cfg.sizes[e.lvls[q] + 1] THEN {"sprout-of-the-wrong-size"} ELSE {})

DStalled(st, e) == Trimmed1(Evolved(st, e.x, e.h, e.del))
Killed(t, e) == {i \in AliveSet(t) : ~e.alive[i]}
Kill(t, K) == [t EXCEPT !.nodes = [i \in 1..N(t) |-> IF i \in K THEN [t.nodes[i] EXCEPT !.alive = FALSE] ELSE t.nodes[i]]]
DAfter(st, e) == LET t == DStalled(st, e) IN Revived(WithSprouts(Kill(t, Killed(t, e)), e.parents))
DStepViol(st, e) ==
  LET n0 == N(st) IN
  (IF \E i \in 1..n0 : e.steps[i] # (IF st.nodes[i].alive THEN st.cfg.len[st.nodes[i].lvl + 1] ELSE 0)
     THEN {"wrong-number-of-steps-in-a-metaepoch"} ELSE {}) \cup
  (IF \E i \in 1..n0 : ~st.nodes[i].alive /\ ~e.same[i] THEN {"dead-deme-changed-its-population"} ELSE {}) \cup
  (IF Len(e.alive) # n0 + Len(e.parents) THEN {"deme-lost"} ELSE
   LET t == DStalled(st, e)
       rv == RedundantViol(t, Killed(t, e))
       sv == DSproutViol(Kill(t, Killed(t, e)), e) IN
   IF rv \cup sv # {} THEN rv \cup sv ELSE
   LET a == DAfter(st, e) IN
   (IF \E i \in 1..N(a) : e.alive[i] # a.nodes[i].alive THEN
      {IF a.halv # st.halv THEN "revival-wrong" ELSE
       IF \E i \in 1..n0 : e.alive[i] /\ ~a.nodes[i].alive THEN "deme-should-have-died" ELSE "deme-died-without-reason"} ELSE {}) \cup
   (IF \E i \in 1..N(a) : e.ripe[i] # a.nodes[i].ripe THEN {"wrong-ripeness"} ELSE {}) \cup
   (IF ~\E i \in 1..Len(e.alive) : e.alive[i] THEN {"no-deme-alive"} ELSE {}))
DViol(st, e) == IF e.k = "hstep" THEN DStepViol(st, e) ELSE Viol(st, e)
DApply(st, e) == IF e.k = "hstep" THEN [DAfter(st, e) EXCEPT !.steps = @ + 1] ELSE Apply(st, e)
=============================================================================
