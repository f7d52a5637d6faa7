--------------------------- MODULE BoxPopTrace ---------------------------
(* Trace validation: every recorded event must be a step BoxPop allows.       *)
EXTENDS BoxPop, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, tst, verdict
tvars == <<t, l, tst, verdict>>
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ verdict = "run"
             /\ tst = InitSt(Traces[t].cfg)
Say(v, pos, cl) == PrintT("VERDICT|" \o ToString(t) \o "|" \o v \o "|" \o ToString(pos) \o "|" \o ToString(cl))
Consume == /\ verdict = "run" /\ l <= Len(Traces[t].ev)
           /\ LET e == Traces[t].ev[l]
                  v == IF e.k = "exc" THEN {"exception: " \o e.msg} ELSE Viol(tst, e) IN
              IF v = {} THEN /\ tst' = Apply(tst, e) /\ l' = l + 1 /\ UNCHANGED verdict
              ELSE /\ Say("FAIL", l, v) /\ verdict' = "fail" /\ UNCHANGED <<tst, l>>
           /\ UNCHANGED t
Finish == /\ verdict = "run" /\ l = Len(Traces[t].ev) + 1
          /\ LET v == Complete(tst) IN
             IF v = {} THEN /\ Say("DONE", l, {}) /\ verdict' = "done"
             ELSE /\ Say("FAIL", l, v) /\ verdict' = "fail"
          /\ UNCHANGED <<t, l, tst>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
