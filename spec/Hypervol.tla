------------------------------ MODULE Hypervol ------------------------------
(* The measure of the region dominated by a set of points (all objectives minimised)   *)
(* and bounded by a reference point, over integer coordinates: by slices along the last *)
(* objective, and by counting unit cells (HypervolMC shows that they agree).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Below(S, ref) == {p \in S : \A i \in 1..Len(ref) : p[i] < ref[i]}
Front1(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE Slices(_, _, _), Sweep(_, _, _, _)
\* S: points strictly below ref in the first m coordinates, as m-tuples
Slices(S, ref, m) ==
  IF S = {} THEN 0
  ELSE IF m = 1 THEN ref[1] - Min({p[1] : p \in S})
  ELSE Sweep(S, {p[m] : p \in S}, ref, m)
\* the slices between consecutive heights Z (a set), lowest first
Sweep(S, Z, ref, m) ==
  IF Z = {} THEN 0
  ELSE LET z == Min(Z)
           R == Z \ {z}
           top == IF R = {} THEN ref[m] ELSE Min(R) IN
       (top - z) * Slices({Front1(p) : p \in {q \in S : q[m] <= z}}, ref, m - 1) + Sweep(S, R, ref, m)
Volume(S, ref) == Slices(Below(S, ref), ref, Len(ref))

InitSt(cfg) == [n |-> 0]
\* e: pts (sequence of integer points), ref, v the value returned in units of the scale (0 - 1 when it is not a whole number of
\* them), kept: the points and the reference were left as they were
Viol(st, e) ==
  (IF e.v # Volume(Range(e.pts), e.ref) THEN {"not-the-measure-of-the-dominated-region"} ELSE {}) \cup
  (IF ~e.kept THEN {"input-changed"} ELSE {})
Apply(st, e) == [st EXCEPT !.n = @ + 1]
Complete(st) == IF st.n > 0 THEN {} ELSE {"nothing-observed"}
=============================================================================
