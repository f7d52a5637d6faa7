---------------------------- MODULE IsolationMC ----------------------------
(* A heap model of why the property needs copies.  Configuration cells are shared     *)
(* mutable objects; preparing hands out a reference (Alias) or a copy.  An instance   *)
(* may relax its own cell (a revival) or move the individuals it was given.  With     *)
(* copies nobody observes anybody else; with references TLC finds the interference    *)
(* (the negative control, cfg IsolationMCAlias).                                      *)
EXTENDS Isolation, Json
CONSTANTS NC, MaxInst, MaxLen, Alias, Gen
VARIABLES cell, inst, ops
vars == <<cell, inst, ops>>
\* cell: per combination, number of times the shared cell was changed; inst: [c, own, k, on]
Init == cell = [c \in 1..NC |-> 0] /\ inst = <<>> /\ ops = <<>>
See(x) == IF Alias THEN cell[x.c] ELSE x.own
Prep == \E c \in 1..NC : ops' = Append(ops, <<"prep", c, 0>>) /\ UNCHANGED <<cell, inst>>
New == /\ Len(inst) < MaxInst
       /\ \E c \in 1..NC, s \in {0, 1} :
            /\ inst' = Append(inst, [c |-> c, own |-> cell[c], k |-> 0, on |-> TRUE])
            /\ ops' = Append(ops, <<"new", c, s>>) /\ UNCHANGED cell
\* a step changes what the instance owns (its archive, thresholds, individuals)
Step == \E i \in 1..Len(inst) :
          /\ inst[i].on
          /\ inst' = [inst EXCEPT ![i].k = @ + 1, ![i].own = @ + 1]
          /\ cell' = IF Alias THEN [cell EXCEPT ![inst[i].c] = @ + 1] ELSE cell
          /\ ops' = Append(ops, <<"step", i, 0>>)
Over == \E i \in 1..Len(inst), how \in {"fail", "end"} :
          /\ inst[i].on /\ inst' = [inst EXCEPT ![i].on = FALSE]
          /\ ops' = Append(ops, <<how, i, 0>>) /\ UNCHANGED cell
Work == \E c \in 1..NC, how \in {0, 1, 2} : ops' = Append(ops, <<"work", c, how>>) /\ UNCHANGED <<cell, inst>>
Next == /\ Len(ops) < MaxLen /\ (Prep \/ New \/ Step \/ Over \/ Work)
Spec == Init /\ [][Next]_vars
ConfigurationUntouched == cell = [c \in 1..NC |-> 0]
NonInterference == \A i \in 1..Len(inst) : See(inst[i]) = inst[i].k
Emit == (Gen /\ Len(ops) = MaxLen) => PrintT("GEN|" \o ToJson([ops |-> ops]))
NoOps == [c |-> cell, i |-> inst, n |-> Len(ops)]
=============================================================================
