------------------------------- MODULE HgsGen -------------------------------
(* Random behaviours of the deme tree (TLC -simulate); the environment's choices are  *)
(* printed and replayed into the real code.                                            *)
EXTENDS HgsMC, Randomization
VARIABLES hist
gvars == <<vars, hist>>
GInit == Init /\ hist = <<>>
Val(f) == [i \in 1..N(st) |-> IF i \in Alive(st) THEN f[i] ELSE 0]
GNext == /\ st.steps < MaxSteps
         /\ \E xf \in RandomSubset(1, [Alive(st) -> Xs]) : \E gf \in RandomSubset(1, [Alive(st) -> Hs]) : \E d \in Dels :
              /\ StepWith(xf, gf, d)
              /\ hist' = Append(hist, [x |-> Val(xf), g |-> Val(gf), d |-> d])
Emit == IF st.steps = MaxSteps THEN PrintT("GEN|" \o ToJson([cfg |-> st.cfg, hist |-> hist])) ELSE TRUE
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
