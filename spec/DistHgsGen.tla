----------------------------- MODULE DistHgsGen -----------------------------
(* Random delivery orders of the protocol, emitted when the steps are over.            *)
EXTENDS DistHgs, Json
Emit == (ext.step > MaxSteps /\ ~ext.wait) =>
          (Quiet => PrintT("GEN|" \o ToJson([init |-> InitNodes, sched |-> sched])))
=============================================================================
