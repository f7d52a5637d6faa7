------------------------------ MODULE ConfigMC ------------------------------
(* The parameters put together one layer after another (a dictionary updated in        *)
(* place), against the declarative rule: the last layer defining the parameter wins.    *)
(* Gen prints one scenario for every set of layers that define a parameter.             *)
EXTENDS Config, Json
CONSTANTS Gen, FirstWins
VARIABLES defs, l, val
vars == <<defs, l, val>>
Def(f) == LET ks == {k \in Layers : f[k] # "none"} IN
          [i \in 1..Cardinality(ks) |-> LET k == CHOOSE k \in ks : Cardinality({q \in ks : q <= k}) = i IN
             [l |-> k, p |-> "x", op |-> f[k], v |-> k]]
Init == /\ \E f \in [3..6 -> {"none", "set"}], g \in [7..10 -> {"none", "set", "add", "del"}] :
              defs = Def([k \in Layers |-> IF k <= 2 THEN "none" ELSE IF k <= 6 THEN f[k] ELSE g[k]])
        /\ l = 0 /\ val = Unset
Next == /\ l < 10 /\ l' = l + 1 /\ UNCHANGED defs
        /\ val' = IF FirstWins /\ val # Unset THEN val ELSE Fold(Ops(defs, "x", l + 1), val)
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][UNCHANGED vars]_vars
\* declaratively: the last layer that sets (or removes) it decides, with what later layers add
LastSet == LET ks == {d.l : d \in {d \in Range(defs) : d.op \in {"set", "del"}}} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A q \in ks : q <= k
Adds == {d.v : d \in {d \in Range(defs) : d.op = "add" /\ d.l > LastSet}}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + Sum(S \ {x})
Base == IF LastSet = 0 THEN Unset ELSE LET d == CHOOSE d \in Range(defs) : d.l = LastSet IN IF d.op = "del" THEN Unset ELSE d.v
Declared == IF Adds = {} THEN Base ELSE (IF Base = Unset THEN 0 ELSE Base) + Sum(Adds)
MostSpecificWins == l = 10 => val = Declared /\ val = Value(defs, "x")
Emit == Gen => PrintT("GEN|" \o ToJson([defs |-> defs]))
=============================================================================
