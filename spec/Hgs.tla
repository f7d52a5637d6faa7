-------------------------------- MODULE Hgs ---------------------------------
(* The tree of demes of the hierarchical strategy and the rules of one step:          *)
(* living demes evolve; stalled demes die ripe; redundant demes die; ripe demes       *)
(* sprout; when nobody lives, the ripe ones are revived and thresholds halve.          *)
(* Positions and hypervolumes are integers; closeness is 2*|a-b| < dist2[level];       *)
(* the progress threshold of a level is ratio[level]/1000, divided by 2^level and     *)
(* by 2 for every revival so far.  Demes are numbered by age.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoHv == -1000000
InitSt(cfg) == [cfg |-> cfg, halv |-> 0, nodes |-> <<>>, steps |-> 0]
Rng(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Min2(a, b) == IF a < b THEN a ELSE b
NewNode(lvl, parent) == [lvl |-> lvl, parent |-> parent, alive |-> TRUE, ripe |-> FALSE, x |-> 0, ran |-> 0,
                         rel |-> 0, hv |-> NoHv, old |-> NoHv, del |-> <<>>]
N(st) == Len(st.nodes)
Close(st, lvl, a, b) == 2 * Abs(a - b) < st.cfg.dist2[lvl + 1]

\* 1. evolution: x, h, del give the position, hypervolume and delegates each deme that ran ends with
Evolved(st, x, h, del) == [st EXCEPT !.nodes = [i \in 1..N(st) |-> LET n == st.nodes[i] IN
   IF ~n.alive THEN n ELSE
   IF n.ran = 0 THEN [n EXCEPT !.x = x[i], !.ran = 1, !.rel = h[i], !.del = del[i]]
   ELSE [n EXCEPT !.x = x[i], !.ran = @ + 1, !.old = n.hv, !.hv = h[i] - n.rel, !.del = del[i]]]]
\* 2. stalled demes
Stalled(st, i) == LET n == st.nodes[i] IN
   n.alive /\ n.old # NoHv /\ n.old > 0
   /\ (n.hv - n.old) * 1000 * Pow2(n.lvl + st.halv) < st.cfg.ratio[n.lvl + 1] * n.old
Trimmed1(st) == [st EXCEPT !.nodes = [i \in 1..N(st) |-> IF Stalled(st, i) THEN [st.nodes[i] EXCEPT !.alive = FALSE, !.ripe = TRUE] ELSE st.nodes[i]]]
\* 3. redundant demes (on the result of 2): close to a ripe one or to an older one that came into this comparison alive
Redundant(st, i) == LET n == st.nodes[i] IN
   n.alive /\ \E j \in 1..N(st) : LET m == st.nodes[j] IN
      /\ j # i /\ m.lvl = n.lvl /\ Close(st, n.lvl, m.x, n.x)
      /\ ((~m.alive /\ m.ripe) \/ (m.alive /\ j < i))
Trimmed2(st) == [st EXCEPT !.nodes = [i \in 1..N(st) |-> IF Redundant(st, i) THEN [st.nodes[i] EXCEPT !.alive = FALSE] ELSE st.nodes[i]]]
\* 4. sprouting
Living(st, p) == Cardinality({i \in 1..N(st) : st.nodes[i].parent = p /\ st.nodes[i].alive})
RECURSIVE ReachRipe(_, _)
ReachRipe(st, i) == st.nodes[i].ripe /\ (st.nodes[i].parent = 0 \/ ReachRipe(st, st.nodes[i].parent))
\* delegates of i that are not redundant with a deme of the next level that has run
Free(st, i) == LET n == st.nodes[i] IN
   SelectSeq(n.del, LAMBDA d : ~\E j \in 1..N(st) : st.nodes[j].lvl = n.lvl + 1 /\ st.nodes[j].ran > 0 /\ Close(st, n.lvl + 1, d, st.nodes[j].x))
MaxSprouts(st, i) == IF ~st.nodes[i].ripe \/ st.nodes[i].lvl >= st.cfg.maxlevel THEN 0
   ELSE LET room == st.cfg.limit - Living(st, i) IN
        IF room <= 0 THEN 0 ELSE Min2(Min2(st.cfg.sproutiveness, room), Len(Free(st, i)))
WithSprouts(st, parents) == [st EXCEPT !.nodes = @ \o [q \in 1..Len(parents) |-> NewNode(st.nodes[parents[q]].lvl + 1, parents[q])]]
\* 5. revival
Revived(st) == IF \E i \in 1..N(st) : st.nodes[i].alive THEN st
   ELSE [st EXCEPT !.halv = @ + 1,
         !.nodes = [i \in 1..N(st) |-> IF st.nodes[i].ripe THEN [st.nodes[i] EXCEPT !.alive = TRUE, !.ripe = FALSE] ELSE st.nodes[i]]]

\* new demes: parents and starting points are observed; everything else is determined
SproutViol(st, parents, lvls, starts, sizes) ==
   UNION {LET mine == SelectSeq([q \in 1..Len(parents) |-> q], LAMBDA q : parents[q] = i)
              fr == Free(st, i)
              ss == [z \in 1..Len(mine) |-> starts[mine[z]]] IN
          (IF Len(mine) > MaxSprouts(st, i) THEN
             (IF ~st.nodes[i].ripe THEN {"deme-that-is-not-ripe-sprouted"} ELSE {"too-many-sprouts"}) ELSE {}) \cup
          (IF ReachRipe(st, i) /\ Len(mine) < MaxSprouts(st, i) THEN {"sprout-missing"} ELSE {}) \cup
          (IF \E s \in Rng(ss) : Count(ss, s) > Count(st.nodes[i].del, s) THEN {"sprout-away-from-its-parents-delegates"} ELSE
           IF \E s \in Rng(ss) : Count(ss, s) > Count(fr, s) THEN {"sprout-around-a-redundant-delegate"} ELSE {})
          : i \in 1..N(st)} \cup
   (IF \E q \in 1..Len(parents) : parents[q] \notin 1..N(st) THEN {"sprout-without-parent"} ELSE
    IF \E q \in 1..Len(parents) : lvls[q] # st.nodes[parents[q]].lvl + 1 THEN {"sprout-on-the-wrong-level"} ELSE
    IF \E q \in 1..Len(parents) : sizes[q] # st.cfg.sizes[lvls[q] + 1] THEN {"sprout-of-the-wrong-size"} ELSE {})

Before(st, e) == Trimmed2(Trimmed1(Evolved(st, e.x, e.h, e.del)))
After(st, e) == Revived(WithSprouts(Before(st, e), e.parents))
StepViol(st, e) ==
  LET t == Before(st, e)  n0 == N(st) IN
  (IF \E i \in 1..n0 : e.steps[i] # (IF st.nodes[i].alive THEN st.cfg.len[st.nodes[i].lvl + 1] ELSE 0)
     THEN {"wrong-number-of-steps-in-a-metaepoch"} ELSE {}) \cup
  (IF \E i \in 1..n0 : ~st.nodes[i].alive /\ ~e.same[i] THEN {"dead-deme-changed-its-population"} ELSE {}) \cup
  (IF Len(e.alive) # n0 + Len(e.parents) THEN {"deme-lost"} ELSE
   LET sv == SproutViol(t, e.parents, e.lvls, e.starts, e.sizes) IN
   IF sv # {} THEN sv ELSE
   LET a == After(st, e) IN
   (IF \E i \in 1..N(a) : e.alive[i] # a.nodes[i].alive THEN
      {IF a.halv # st.halv THEN "revival-wrong" ELSE
       IF \E i \in 1..n0 : e.alive[i] /\ ~a.nodes[i].alive THEN "deme-should-have-died" ELSE "deme-died-without-reason"} ELSE {}) \cup
   (IF \E i \in 1..N(a) : e.ripe[i] # a.nodes[i].ripe THEN {"wrong-ripeness"} ELSE {}) \cup
   (IF ~\E i \in 1..Len(e.alive) : e.alive[i] THEN {"no-deme-alive"} ELSE {}))
Viol(st, e) ==
  CASE e.k = "plant" ->
         (IF st.nodes # <<>> THEN {"planted-twice"} ELSE {}) \cup
         (IF ~e.sub THEN {"root-not-taken-from-the-given-population"} ELSE {}) \cup
         (IF e.size # st.cfg.sizes[1] THEN {"root-of-the-wrong-size"} ELSE {})
    [] e.k = "hstep" -> StepViol(st, e)
    [] e.k = "made" ->
         (IF e.params # st.cfg.params[e.lvl + 1] THEN {"deme-with-other-parameters-than-its-levels"} ELSE {}) \cup
         (IF e.varied > 0 /\ st.cfg.params[e.lvl + 1][2] = 0 THEN {"sprout-varied-at-another-rate-than-its-levels"} ELSE {})
    [] OTHER -> {"unexpected-" \o e.k}
Apply(st, e) ==
  CASE e.k = "plant" -> [st EXCEPT !.nodes = <<NewNode(0, 0)>>]
    [] e.k = "hstep" -> [After(st, e) EXCEPT !.steps = @ + 1]
    [] OTHER -> st
Complete(st) == IF st.steps = 0 THEN {"nothing-observed"} ELSE {}
=============================================================================
