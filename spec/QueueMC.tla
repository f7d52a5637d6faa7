------------------------------ MODULE QueueMC ------------------------------
(* How the queue is worked off: jobs are taken in any order, each is prepared, its     *)
(* object made, stepped, its checkpoints stored, the object released; a failure leads  *)
(* straight to the release and a report.  Careful = FALSE stops the queue at a failure *)
(* (negative control).  Fates are chosen initially; Gen prints them as scenarios.      *)
EXTENDS Queue, Json
CONSTANTS NP, N, Cps, Careful, Gen, MaxAt
C1 == <<1>>
C2 == <<1, 3>>
C3 == <<2, 3, 5>>
VARIABLES st, todo, cur, dirs, rep, bad, stop
vars == <<st, todo, cur, dirs, rep, bad, stop>>
Fates == {[f |-> "ok", at |-> 0], [f |-> "construct", at |-> 0]} \cup
         {[f |-> "step", at |-> k] : k \in 1..MaxAt} \cup
         {[f |-> g, at |-> k] : g \in (IF MaxAt > 1 THEN {"final", "fit", "store"} ELSE {"store"}), k \in 1..Len(Cps)}
None == [on |-> FALSE, p |-> 0, r |-> 0, i |-> 0, n |-> 0, pc |-> "idle", cps |-> <<>>]
Ev(k, p, i) == [k |-> k, p |-> p, i |-> i]
EndEv == [k |-> "end", p |-> 0, i |-> 0, dirs |-> dirs, reported |-> rep]
Init == /\ \E pf \in [1..NP -> {"ok", "prep", "nv", "dir"}], inf \in [1..NP -> [1..N -> Fates]] :
              /\ \A p \in 1..NP : pf[p] = "ok" \/ inf[p] = [i \in 1..N |-> [f |-> "ok", at |-> 0]]
              /\
                 st = [InitSt([n |-> N, mode |-> "budget", cps |-> Cps, pf |-> pf, inf |-> inf]) EXCEPT !.queued = TRUE, !.jobs = {<<p, r>> : p \in 1..NP, r \in 0..(N - 1)}]
        /\ todo = {<<p, r>> : p \in 1..NP, r \in 0..(N - 1)} /\ cur = None /\ dirs = <<>> /\ rep = <<>> /\ bad = {} /\ stop = FALSE
Do(e) == bad' = bad \cup Viol(st, e) /\ st' = Apply(st, e)
F == st.cfg.inf[cur.p][cur.i]
Take == /\ ~cur.on /\ ~stop
        /\ \E j \in todo : cur' = [on |-> TRUE, p |-> j[1], r |-> j[2], i |-> 0, n |-> 0, pc |-> "prep", cps |-> <<>>] /\ todo' = todo \ {j}
        /\ UNCHANGED <<st, dirs, rep, bad, stop>>
Prep == /\ cur.on /\ cur.pc = "prep"
        /\ (IF st.cfg.pf[cur.p] \in {"prep", "nv"} THEN cur' = [cur EXCEPT !.pc = "report"] /\ UNCHANGED <<st, bad>>
            ELSE LET i == Cardinality({x \in st.begun : x[1] = cur.p}) + 1 IN
                 cur' = [cur EXCEPT !.pc = "make", !.i = i] /\ Do(Ev("begin", cur.p, i)))
        /\ UNCHANGED <<todo, dirs, rep, stop>>
Make == /\ cur.on /\ cur.pc = "make"
        /\ (IF F.f = "construct" THEN cur' = [cur EXCEPT !.pc = "report"] /\ Do(Ev("fault", cur.p, cur.i))
            ELSE cur' = [cur EXCEPT !.pc = "run"] /\ Do(Ev("made", cur.p, cur.i)))
        /\ UNCHANGED <<todo, dirs, rep, stop>>
NextCp == st.cfg.cps[Len(cur.cps) + 1]
Run == /\ cur.on /\ cur.pc = "run"
       /\ IF Len(cur.cps) = Len(st.cfg.cps) THEN cur' = [cur EXCEPT !.pc = "shut"] /\ UNCHANGED <<st, bad>>
          ELSE IF cur.n < NextCp
               THEN IF F.f = "step" /\ F.at = cur.n + 1 THEN cur' = [cur EXCEPT !.pc = "shutf"] /\ Do(Ev("fault", cur.p, cur.i))
                    ELSE cur' = [cur EXCEPT !.n = @ + 1] /\ Do(Ev("step", cur.p, cur.i))
               ELSE IF (F.f \in {"final", "fit", "store"} /\ F.at = Len(cur.cps) + 1) \/ st.cfg.pf[cur.p] = "dir"
                    THEN cur' = [cur EXCEPT !.pc = "shutf"] /\ Do(Ev("fault", cur.p, cur.i))
                    ELSE cur' = [cur EXCEPT !.cps = Append(@, NextCp)] /\ UNCHANGED <<st, bad>>
       /\ UNCHANGED <<todo, dirs, rep, stop>>
Keep == dirs' = IF cur.cps = <<>> THEN dirs ELSE Append(dirs, [p |-> cur.p, run |-> cur.r, i |-> cur.i, cps |-> cur.cps, n |-> cur.cps])
Shut == /\ cur.on /\ cur.pc \in {"shut", "shutf"} /\ Do(Ev("shut", cur.p, cur.i)) /\ Keep
        /\ (IF cur.pc = "shut" THEN cur' = None ELSE cur' = [cur EXCEPT !.pc = "report"]) /\ UNCHANGED <<todo, rep, stop>>
Report == /\ cur.on /\ cur.pc = "report" /\ rep' = Append(rep, <<cur.p, cur.r>>) /\ cur' = None /\ stop' = ~Careful
          /\ UNCHANGED <<st, todo, dirs, bad>>
Finished == ~cur.on /\ (todo = {} \/ stop) /\ ~st.ended
End == Finished /\ Do(EndEv) /\ UNCHANGED <<todo, cur, dirs, rep, stop>>
Next == Take \/ Prep \/ Make \/ Run \/ Shut \/ Report \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllWell == bad = {}
Ends == <>(st.ended)
\* scenarios: the fates alone
GenNext == UNCHANGED vars
GenSpec == Init /\ [][GenNext]_vars
Emit == Gen => PrintT("GEN|" \o ToJson([n |-> N, cps |-> Cps, pf |-> st.cfg.pf, inf |-> st.cfg.inf]))
=============================================================================
