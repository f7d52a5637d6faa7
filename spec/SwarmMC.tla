------------------------------ MODULE SwarmMC -------------------------------
(* Candidates from a grid are offered to the leaders and, when accepted, to the       *)
(* result archive, in every order; every pruning choice is explored.                   *)
EXTENDS Swarm, Json
CONSTANTS Base, W, D, MaxOffers, Caps, Gen, Num, Den
VARIABLES st, hist
vars == <<st, hist>>
Vecs == [1..D -> Base..(Base + W)]
Init == hist = <<>> /\ \E c \in Caps : st = InitSt([cap |-> c, num |-> Num, den |-> Den])
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
\* contents after offering p to `who', as sets
Outcomes(s, who, p) ==
  IF Refusers(s, who, p) # {} THEN {[acc |-> FALSE, after |-> Rng(Of(s, who))]}
  ELSE LET full == (Rng(Of(s, who)) \ Victims(s, who, p)) \cup {p} IN
       IF who = "leaders" /\ Cardinality(full) > s.cap THEN {[acc |-> TRUE, after |-> full \ {x}] : x \in full}
       ELSE {[acc |-> TRUE, after |-> full]}
Ev(who, p, o) == [k |-> "offer", who |-> who, p |-> p, acc |-> o.acc, after |-> SeqOfSet(o.after)]
Offer(p) == \E o \in Outcomes(st, "leaders", p) :
   LET e == Ev("leaders", p, o) s1 == Apply(st, e) IN
   IF o.acc THEN \E q \in Outcomes(s1, "archive", p) : st' = [Apply(s1, Ev("archive", p, q)) EXCEPT !.seen = @ \cup {p}]
   ELSE st' = [s1 EXCEPT !.seen = @ \cup {p}]
Next == /\ Len(hist) < MaxOffers
        /\ \E p \in Vecs : /\ IF Gen THEN UNCHANGED st ELSE Offer(p)
                           /\ hist' = Append(hist, p)
                           /\ IF Gen /\ Len(hist') = MaxOffers THEN PrintT("GEN|" \o ToJson([seq |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<st, IF Gen THEN hist ELSE <<Len(hist)>> >>
LeadersOk == Inner(st, "leaders", st.lead) = {}
ArchiveOk == Inner(st, "archive", st.arch) = {}
\* nothing evaluated is better than the archive (with the tolerance applied once per refusal)
Covers == \A p \in st.seen : \E m \in Rng(st.arch) : \A j \in 1..D : m[j] <= p[j] + (IF Base >= 134 THEN MaxOffers ELSE 0)
\* the rules are decisive: an outcome other than the modelled ones is a violation
Decisive == \A p \in Vecs : \A o \in Outcomes(st, "leaders", p) :
   /\ OfferViol(st, Ev("leaders", p, o)) = {}
   /\ OfferViol(st, Ev("leaders", p, [acc |-> ~o.acc, after |-> o.after])) # {}
   /\ \A x \in o.after \cap Rng(st.lead) : Cardinality(o.after) < st.cap => OfferViol(st, Ev("leaders", p, [acc |-> o.acc, after |-> o.after \ {x}])) # {}
DecisiveArchive == \A p \in Vecs : \A o \in Outcomes(st, "archive", p) :
   /\ OfferViol(st, Ev("archive", p, o)) = {}
   /\ \A x \in o.after \cap Rng(st.arch) : x \notin Victims(st, "archive", p) => OfferViol(st, Ev("archive", p, [acc |-> o.acc, after |-> o.after \ {x}])) # {}
=============================================================================
