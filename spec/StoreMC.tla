------------------------------ MODULE StoreMC ------------------------------
(* How a store is carried out: make the folder, open a file, write it in chunks,      *)
(* close, (Atomic) rename it to its final name.  The process may die before any of     *)
(* these, losing what is not yet written.  With Atomic the folder seen by a loader     *)
(* is always one Store allows; writing in place is the negative control.               *)
EXTENDS Store, Json
CONSTANTS NB, NR, Chunks, MaxOps, Atomic, Gen
VARIABLES st, files, job, ops, v
vars == <<st, files, job, ops, v>>
\* files: final name <<b, r>> -> [d, n] with n chunks written; temporary files have no final name
None == [on |-> FALSE, b |-> 0, r |-> 0, pc |-> "idle", n |-> 0, kill |-> 0]
Init == st = InitSt(<<>>) /\ files = {} /\ job = None /\ ops = <<>> /\ v = 1
File(b, r) == {f \in files : f.b = b /\ f.r = r}
Rec(b, r, d) == [p |-> 1, a |-> 1, b |-> b, r |-> r, d |-> d]
Begin == /\ ~job.on /\ Len(ops) < MaxOps
         /\ \E b \in 1..NB, r \in 1..NR, kill \in 0..(2 * Chunks + 2) :
               job' = [on |-> TRUE, b |-> b, r |-> r, pc |-> "open", n |-> 0, kill |-> kill]
         /\ UNCHANGED <<st, files, ops, v>>
Put(n, d) == files' = (files \ File(job.b, job.r)) \cup {[b |-> job.b, r |-> job.r, n |-> n, d |-> d]}
\* the point at which the process dies is fixed beforehand: 0 before opening, n + 1 after n chunks, beyond: it does not die
Point == IF job.pc = "open" THEN 0 ELSE job.n + 1
Alive == job.on /\ job.kill # Point
Open == /\ Alive /\ job.pc = "open" /\ job' = [job EXCEPT !.pc = "write"]
        /\ (IF Atomic THEN UNCHANGED files ELSE Put(0, v)) /\ UNCHANGED <<st, ops, v>>
Write == /\ Alive /\ job.pc = "write" /\ job.n < Chunks /\ job' = [job EXCEPT !.n = @ + 1]
         /\ (IF Atomic THEN UNCHANGED files ELSE Put(job.n + 1, v)) /\ UNCHANGED <<st, ops, v>>
End == /\ Alive /\ job.pc = "write" /\ job.n = Chunks
       /\ (IF Atomic THEN Put(Chunks, v) ELSE UNCHANGED files)
       /\ st' = Apply(st, [k |-> "store", p |-> 1, a |-> 1, b |-> job.b, r |-> job.r, d |-> v])
       /\ ops' = Append(ops, <<"store", job.b, job.r, 0>>) /\ job' = None /\ v' = v + 1
Die == /\ job.on /\ job.kill = Point
       /\ st' = Apply(st, [k |-> "crash", p |-> 1, a |-> 1, b |-> job.b, r |-> job.r, d |-> v])
       /\ ops' = Append(ops, <<"crash", job.b, job.r, Point>>) /\ job' = None /\ v' = v + 1
       /\ UNCHANGED files
Seen == {Rec(f.b, f.r, IF f.n = Chunks THEN f.d ELSE 0 - 1) : f \in files}
LoadEv == [k |-> "load", groups |-> <<[p |-> 1, a |-> 1, lists |->
             [b \in 1..NB |-> [b |-> b, runs |-> LET rs == {r \in 1..NR : File(b, r) # {}} IN
                 [i \in 1..Cardinality(rs) |-> LET r == CHOOSE r \in rs : Cardinality({q \in rs : q <= r}) = i IN
                     [no |-> r, r |-> r, d |-> (CHOOSE x \in Seen : x.b = b /\ x.r = r).d]]]]]>>]
Load == /\ ~job.on /\ Len(ops) < MaxOps /\ st' = Apply(st, LoadEv) /\ ops' = Append(ops, <<"load", 0, 0, 0>>) /\ UNCHANGED <<files, job, v>>
Next == Begin \/ Open \/ Write \/ End \/ Die \/ Load
Spec == Init /\ [][Next]_vars
NothingLostOrTorn == ~job.on => LoadViol(st, LoadEv) = {}
Emit == (Gen /\ Len(ops) = MaxOps /\ ~job.on) => PrintT("GEN|" \o ToJson([ops |-> ops]))
View == [s |-> st, f |-> files, j |-> job, n |-> Len(ops)]
=============================================================================
