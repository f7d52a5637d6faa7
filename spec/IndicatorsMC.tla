---------------------------- MODULE IndicatorsMC ----------------------------
(* How the dominance indicator is cached: a file per problem with what was on disk and  *)
(* the joint fronts, and a file per result with its value.  On a query what is on disk  *)
(* is compared with the file; if it differs, all values are discarded.  ByKeys = FALSE  *)
(* compares the solutions only, not under which names they are (negative control).      *)
EXTENDS Indicators, Json, Randomization
CONSTANTS NA, NR, NB, Contents, MaxOps, ByKeys, Gen
C3 == << <<<<0, 2>>, <<2, 0>>>>, <<<<1, 1>>, <<3, 3>>>>, <<<<0, 1>>, <<2, 0>>>> >>
C2 == << <<<<0, 2>>, <<2, 0>>>>, <<<<1, 1>>, <<3, 3>>>> >>
C5 == << <<<<0, 0>>>>, <<<<0, 0>>>>, <<<<0, 0>>>>, <<<<0, 0>>>>, <<<<0, 0>>>> >>
VARIABLES st, file, vals, ops, bad
vars == <<st, file, vals, ops, bad>>
NoFile == [on |-> FALSE, keys |-> {}, sols |-> <<>>, front |-> {}]
Init == st = InitSt([contents |-> Contents]) /\ file = NoFile /\ vals = {} /\ ops = <<>> /\ bad = FALSE
Keys == {<<x.b, No(st, x.a, x.r)>> : x \in st.res}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
SortedKeys == [i \in 1..Cardinality(Keys) |-> CHOOSE q \in Keys : Cardinality({p \in Keys : Before(p, q)}) = i]
Sols(q) == LET X == {x \in st.res : x.b = q[1] /\ No(st, x.a, x.r) = q[2]} IN
           [i \in 1..Cardinality(X) |-> (CHOOSE x \in X : Cardinality({y \in X : y.a <= x.a}) = i).d]
OnDisk == [i \in 1..Cardinality(Keys) |-> Sols(SortedKeys[i])]
Fresh == {[key |-> q, f |-> Front(UNION {Range(Contents[Sols(q)[i]]) : i \in 1..Len(Sols(q))})] : q \in Keys}
Same == file.on /\ file.sols = OnDisk /\ (ByKeys => file.keys = Keys)
File2 == IF Same THEN file ELSE [on |-> TRUE, keys |-> Keys, sols |-> OnDisk, front |-> Fresh]
Vals1 == IF Same THEN vals ELSE {}
FrontOf(x) == LET F == {f \in File2.front : f.key = <<x.b, No(st, x.a, x.r)>>} IN IF F = {} THEN {} ELSE (CHOOSE f \in F : TRUE).f
Answer(x) == LET V == {v \in Vals1 : v.a = x.a /\ v.r = x.r /\ v.b = x.b} IN
             IF V # {} THEN CHOOSE v \in V : TRUE
             ELSE [a |-> x.a, r |-> x.r, b |-> x.b, f |-> FrontOf(x), n |-> Cardinality(Front(Pts(st, x)) \cap FrontOf(x)), m |-> Cardinality(FrontOf(x))]
Do(o) == ops' = Append(ops, o)
Step(e, o) == st' = Apply(st, e) /\ Do(o)
Put == \E a \in 1..NA, r \in 1..NR, b \in 1..NB, d \in 1..Len(Contents) :
         Step([k |-> "put", a |-> a, r |-> r, b |-> b, d |-> d], <<"put", a, r, b, d>>) /\ UNCHANGED <<file, vals, bad>>
Del == \E x \in st.res : Step([k |-> "del", a |-> x.a, r |-> x.r, b |-> x.b], <<"del", x.a, x.r, x.b, 0>>) /\ UNCHANGED <<file, vals, bad>>
DelRun == \E q \in st.runs : Step([k |-> "delrun", a |-> q[1], r |-> q[2]], <<"delrun", q[1], q[2], 0, 0>>)
              /\ vals' = {v \in vals : ~(v.a = q[1] /\ v.r = q[2])} /\ UNCHANGED <<file, bad>>
Query == /\ st.res # {} /\ (ops = <<>> \/ ops[Len(ops)][1] # "query" \/ (Len(ops) > 1 /\ ops[Len(ops) - 1][1] # "query"))
         /\ file' = File2 /\ vals' = {Answer(x) : x \in st.res} \cup {v \in Vals1 : At(st.res, v.a, v.r, v.b) = {}}
         /\ bad' = (bad \/ \E x \in st.res : LET g == Answer(x) IN g.n * Den(st, x) # g.m * Num(st, x) \/ g.f # FrontOf(x))
         /\ Step([k |-> "query"], <<"query", 0, 0, 0, 0>>)
Next == Len(ops) < MaxOps /\ (Put \/ Del \/ DelRun \/ Query)
Spec == Init /\ [][Next]_vars
\* the histories alone
GenNext == /\ Len(ops) < MaxOps
           /\ \/ \E a \in 1..NA, r \in 1..NR, b \in 1..NB : \E d \in RandomSubset(1, 1..Len(Contents)) :
                   Step([k |-> "put", a |-> a, r |-> r, b |-> b, d |-> d], <<"put", a, r, b, d>>)
              \/ \E x \in st.res : Step([k |-> "del", a |-> x.a, r |-> x.r, b |-> x.b], <<"del", x.a, x.r, x.b, 0>>)
              \/ \E q \in st.runs : Step([k |-> "delrun", a |-> q[1], r |-> q[2]], <<"delrun", q[1], q[2], 0, 0>>)
              \/ \E w \in 1..8 : st.res # {} /\ ops[Len(ops)][1] # "query" /\ Step([k |-> "query"], <<"query", 0, 0, 0, 0>>)
           /\ UNCHANGED <<file, vals, bad>>
GenSpec == Init /\ [][GenNext]_vars
AlwaysCurrent == ~bad
View == <<st.res, st.runs, file, vals, bad, Len(ops)>>
Emit == (Gen /\ Len(ops) = MaxOps) => PrintT("GEN|" \o ToJson([ops |-> ops]))
=============================================================================
