------------------------------ MODULE DistHgs ------------------------------
(* The actor protocol of the distributed hierarchical strategy.  Actor 0 is the        *)
(* coordinator, 1.. are demes (1 is the root), X (= 99) is the caller of step() and     *)
(* finalized_population().  Messages between each pair of actors keep their order; any  *)
(* channel may be served next.  Which demes stall, which are redundant and how many     *)
(* sprouts a ripe deme wants is nondeterministic.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxNodes, MaxLevel, MaxSteps, InitNodes
X == 99
Ops == <<"METAEPOCH", "TRIMNP", "TRIMRED", "RELEASE", "REVIVE">>
VARIABLES chan, node, sup, ext, sched
vars == <<chan, node, sup, ext, sched>>
Actors == 0..MaxNodes \cup {X}
Msg(op, a) == [op |-> op, arg |-> a]
\* parent and level of the demes there may be: 1 root; the initial ones; the rest is assigned on registration
NoNode == [reg |-> FALSE, alive |-> FALSE, ripe |-> FALSE, lvl |-> 0, ran |-> 0, killed |-> FALSE,
           kids |-> <<>>, want |-> 0, got |-> 0]
Root == [NoNode EXCEPT !.reg = TRUE, !.alive = TRUE]
\* initial tree: a root with InitNodes - 1 children (any mix of statuses)
InitTree == {[i \in 1..MaxNodes |-> IF i = 1 THEN [Root EXCEPT !.alive = s[1] = "a", !.ripe = s[1] = "r", !.kids = [k \in 1..(InitNodes - 1) |-> k + 1]]
                                    ELSE IF i <= InitNodes THEN [Root EXCEPT !.lvl = 1, !.alive = s[i] = "a", !.ripe = s[i] = "r"] ELSE NoNode]
             : s \in {f \in [1..InitNodes -> {"a", "r", "d"}] : f[1] # "d" /\ \E i \in 1..InitNodes : f[i] = "a"}}
Init == /\ chan = [p \in Actors \X Actors |-> <<>>]
        /\ node \in InitTree
        /\ sup = [nodes |-> [i \in 1..InitNodes |-> [id |-> i, lvl |-> IF i = 1 THEN 0 ELSE 1]], task |-> "none", want |-> 0, got |-> 0,
                  info |-> <<>>, lvl |-> 0, idx |-> 0, states |-> <<>>]
        /\ ext = [pc |-> 0, wait |-> FALSE, answers |-> 0, step |-> 1, alive0 |-> {}, pop |-> FALSE]
        /\ sched = <<>>
Ids(s) == {s.nodes[i].id : i \in 1..Len(s.nodes)}
OnLevel(s, l) == SelectSeq(s.nodes, LAMBDA n : n.lvl = l)
RECURSIVE SendAll(_, _, _, _)
SendAll(c, from, dests, m) == IF dests = <<>> THEN c
   ELSE SendAll([c EXCEPT ![<<from, Head(dests)>>] = Append(@, m)], from, Tail(dests), m)
Put(c, from, to, m) == [c EXCEPT ![<<from, to>>] = Append(@, m)]
IdSeq(ns) == [i \in 1..Len(ns) |-> ns[i].id]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})

\* ---- the caller -----------------------------------------------------------------------
Ask == /\ ~ext.wait
       /\ ext.step <= MaxSteps
       /\ LET op == IF ext.pop THEN "POPULATION" ELSE Ops[ext.pc + 1] IN
          /\ chan' = Put(chan, X, 0, Msg(op, 0))
          /\ ext' = [ext EXCEPT !.wait = TRUE, !.answers = 0, !.alive0 = IF ext.pc = 0 /\ ~ext.pop THEN {i \in Ids(sup) : node[i].alive \/ ~node[i].reg} ELSE @]
          /\ node' = IF ext.pc = 0 /\ ~ext.pop THEN [i \in 1..MaxNodes |-> [node[i] EXCEPT !.ran = 0]] ELSE node
       /\ UNCHANGED sup /\ sched' = sched
Answered(e) == IF e.pop THEN [e EXCEPT !.pop = FALSE, !.wait = FALSE, !.answers = @ + 1, !.step = @ + 1]
   ELSE IF e.pc = Len(Ops) - 1 THEN [e EXCEPT !.pc = 0, !.pop = TRUE, !.wait = FALSE, !.answers = @ + 1]
   ELSE [e EXCEPT !.pc = @ + 1, !.wait = FALSE, !.answers = @ + 1]

\* ---- the coordinator ------------------------------------------------------------------
\* find the deepest level with demes
Leaf(s) == CHOOSE l \in 0..MaxLevel : OnLevel(s, l) # <<>> /\ \A k \in 0..MaxLevel : OnLevel(s, k) # <<>> => k <= l
SupHandle(c, from, m) ==
  IF from = X THEN
    CASE m.op \in {"METAEPOCH", "TRIMNP", "TRIMRED", "POPULATION"} ->
           /\ chan' = SendAll(c, 0, IdSeq(sup.nodes), m)
           /\ sup' = [sup EXCEPT !.task = m.op, !.want = Len(sup.nodes), !.got = 0, !.info = <<>>, !.states = IF m.op = "METAEPOCH" THEN <<>> ELSE @]
      [] m.op = "RELEASE" ->
           LET l == Leaf(sup) IN
           /\ chan' = Put(c, 0, OnLevel(sup, l)[1].id, m)
           /\ sup' = [sup EXCEPT !.task = m.op, !.lvl = l, !.idx = 1, !.got = 0]
      [] m.op = "REVIVE" ->
           LET alive == {q \in 1..Len(sup.states) : sup.states[q].alive}
               ripe == {sup.states[q].id : q \in {q \in 1..Len(sup.states) : sup.states[q].ripe}} IN
           IF alive # {} THEN chan' = Put(c, 0, X, Msg("ANSWER", 0)) /\ sup' = [sup EXCEPT !.task = "none"]
           ELSE chan' = SendAll(c, 0, SetSeq(ripe), m) /\ sup' = [sup EXCEPT !.task = m.op, !.want = Cardinality(ripe), !.got = 0]
  ELSE
    CASE m.op \in {"METAEPOCH_END", "TRIMNP_END", "POPULATION_END", "REVIVE_END"} ->
           /\ sup' = [sup EXCEPT !.got = @ + 1]
           /\ chan' = IF sup.got + 1 = sup.want THEN Put(c, 0, X, Msg("ANSWER", 0)) ELSE c
      [] m.op = "STATUS" ->
           LET inf == Append(sup.info, [id |-> from, alive |-> m.arg, lvl |-> node[from].lvl]) IN
           IF Len(inf) < sup.want THEN chan' = c /\ sup' = [sup EXCEPT !.info = inf]
           ELSE \E K \in SUBSET {inf[q].id : q \in {q \in 1..Len(inf) : inf[q].alive /\ inf[q].id # 1}} :
                  /\ chan' = Put(SendAll(c, 0, SetSeq(K), Msg("KILL", 0)), 0, X, Msg("ANSWER", 0))
                  /\ sup' = [sup EXCEPT !.info = inf]
      [] m.op = "REGISTER" ->
           LET new == Len(sup.nodes) + 1 IN
           /\ chan' = Put(Put(c, 0, new, Msg("RESET", m.arg)), 0, from, Msg("REGISTERED", new))
           /\ sup' = [sup EXCEPT !.nodes = Append(@, [id |-> new, lvl |-> m.arg])]
      [] m.op = "RELEASE_END" ->
           LET st2 == sup.states \o m.arg
               more == sup.idx < Len(OnLevel(sup, sup.lvl))
               l2 == IF more THEN sup.lvl ELSE sup.lvl - 1
               i2 == IF more THEN sup.idx + 1 ELSE 1 IN
           /\ sup' = [sup EXCEPT !.states = st2, !.lvl = l2, !.idx = i2]
           /\ chan' = IF l2 < 0 THEN Put(c, 0, X, Msg("ANSWER", 0)) ELSE Put(c, 0, OnLevel(sup, l2)[i2].id, Msg("RELEASE", 0))
      [] m.op = "DONE" -> chan' = c /\ UNCHANGED sup
\* ---- a deme -----------------------------------------------------------------------------
State(i) == [id |-> i, alive |-> node[i].alive, ripe |-> node[i].ripe]
Finish(c, i, created) == Put(c, i, 0, Msg("RELEASE_END", <<State(i)>> \o [q \in 1..created |-> [id |-> i, alive |-> TRUE, ripe |-> FALSE]]))
NodeHandle(c, i, from, m) ==
  CASE m.op = "RESET" -> node' = [node EXCEPT ![i] = [Root EXCEPT !.lvl = m.arg]] /\ chan' = Put(c, i, 0, Msg("DONE", 0))
    [] m.op = "METAEPOCH" -> node' = [node EXCEPT ![i].ran = IF node[i].alive THEN @ + 1 ELSE @] /\ chan' = Put(c, i, 0, Msg("METAEPOCH_END", 0))
    [] m.op = "TRIMNP" -> /\ \E stall \in (IF node[i].alive THEN BOOLEAN ELSE {FALSE}) :
                               node' = IF stall THEN [node EXCEPT ![i].alive = FALSE, ![i].ripe = TRUE] ELSE node
                          /\ chan' = Put(c, i, 0, Msg("TRIMNP_END", 0))
    [] m.op = "TRIMRED" -> node' = node /\ chan' = Put(c, i, 0, Msg("STATUS", node[i].alive))
    [] m.op = "KILL" -> node' = [node EXCEPT ![i].alive = FALSE] /\ chan' = c
    [] m.op = "REVIVE" -> node' = [node EXCEPT ![i].alive = TRUE, ![i].ripe = FALSE] /\ chan' = Put(c, i, 0, Msg("REVIVE_END", 0))
    [] m.op = "POPULATION" -> node' = node /\ chan' = Put(c, i, 0, Msg("POPULATION_END", 0))
    [] m.op = "RELEASE" ->
         IF ~node[i].ripe \/ node[i].lvl >= MaxLevel THEN node' = node /\ chan' = Finish(c, i, 0)
         ELSE IF node[i].kids # <<>> THEN node' = [node EXCEPT ![i].got = 0] /\ chan' = SendAll(c, i, node[i].kids, Msg("CHECK", 0))
         ELSE IF Len(sup.nodes) < MaxNodes THEN node' = node /\ chan' = Put(c, i, 0, Msg("REGISTER", node[i].lvl + 1))
         ELSE node' = node /\ chan' = Finish(c, i, 0)
    [] m.op = "CHECK" -> node' = node /\ chan' = Put(c, i, from, Msg("KIDSTATE", node[i].alive))
    [] m.op = "KIDSTATE" ->
         /\ node' = [node EXCEPT ![i].got = @ + 1]
         /\ IF node[i].got + 1 < Len(node[i].kids) THEN chan' = c
            ELSE \E want \in BOOLEAN : chan' = IF want /\ Len(sup.nodes) < MaxNodes THEN Put(c, i, 0, Msg("REGISTER", node[i].lvl + 1)) ELSE Finish(c, i, 0)
    [] m.op = "REGISTERED" -> node' = [node EXCEPT ![i].kids = Append(@, m.arg)] /\ chan' = Finish(c, i, 1)

Deliver(p) == /\ chan[p] # <<>>
              /\ LET m == Head(chan[p])
                     c == [chan EXCEPT ![p] = Tail(@)] IN
                 IF p[2] = 0 THEN SupHandle(c, p[1], m) /\ UNCHANGED <<node, ext>>
                 ELSE IF p[2] = X THEN /\ chan' = c /\ UNCHANGED <<node, sup>>
                                       /\ ext' = IF ext.wait THEN Answered(ext) ELSE [ext EXCEPT !.answers = @ + 1]
                 ELSE NodeHandle(c, p[2], p[1], m) /\ UNCHANGED <<sup, ext>>
              /\ sched' = Append(sched, p)
Next == Ask \/ \E p \in Actors \X Actors : Deliver(p)
Spec == Init /\ [][Next]_vars
View == <<chan, node, sup, ext>>
\* ---- guarantees ---------------------------------------------------------------------------
Quiet == \A p \in Actors \X Actors : chan[p] = <<>>
NoRequestHangs == Quiet => ~ext.wait
OneAnswer == (ext.wait => ext.answers = 0) /\ Len(chan[<<0, X>>]) <= 1 /\ (chan[<<0, X>>] # <<>> => ext.wait)
\* once the metaepoch is answered every living deme has run exactly once and no dead one has
AllRan == (~ext.pop /\ ext.pc >= 1) => \A i \in Ids(sup) : node[i].reg /\ node[i].ran # (IF i \in ext.alive0 THEN 1 ELSE 0) => FALSE
NeverTwice == \A i \in 1..MaxNodes : node[i].ran <= 1
\* kill orders have arrived before the release of sprouts of that level is decided
NoKillInFlight == (sup.task = "RELEASE" /\ ext.pc = 3) => \A i \in 1..MaxNodes : \A q \in 1..Len(chan[<<0, i>>]) :
                     chan[<<0, i>>][q].op = "RELEASE" => (\A z \in q..Len(chan[<<0, i>>]) : chan[<<0, i>>][z].op # "KILL")
\* what a parent hears about its sprouts is still true
KidFresh == \A k, i \in 1..MaxNodes : \A q \in 1..Len(chan[<<k, i>>]) : chan[<<k, i>>][q].op = "KIDSTATE" => chan[<<k, i>>][q].arg = node[k].alive
\* whenever the step is over, somebody lives, nobody is both alive and ripe
SomeAlive == (ext.pop /\ ~ext.wait) => \E i \in Ids(sup) : node[i].alive \/ ~node[i].reg
Statuses == \A i \in 1..MaxNodes : ~(node[i].alive /\ node[i].ripe)
RootNeverLost == node[1].alive \/ node[1].ripe
=============================================================================
