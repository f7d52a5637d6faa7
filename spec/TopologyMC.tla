----------------------------- MODULE TopologyMC -----------------------------
(* A torus whose last row may be incomplete: columns close over the rows present,     *)
(* rows close over their own length.  The laws hold for every width and size.          *)
EXTENDS Topology
CONSTANTS MaxW, MaxN
VARIABLES w, n
vars == <<w, n>>
RowOf(i) == (i - 1) \div w
ColOf(i) == (i - 1) % w
At(r, c) == r * w + c + 1
RowLen(r) == IF (r + 1) * w <= n THEN w ELSE n - r * w
ColLen(c) == (n - c + w - 1) \div w
Nb(i) == LET r == RowOf(i)  c == ColOf(i)  rl == RowLen(r)  cl == ColLen(c) IN
   {At(r, (c + 1) % rl), At(r, (c + rl - 1) % rl), At((r + 1) % cl, c), At((r + cl - 1) % cl, c)} \ {i}
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SeqOfSet(S \ {x})
Adj == [i \in 1..n |-> SeqOfSet(Nb(i))]
Init == w \in 1..MaxW /\ n = 1
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
Laws == LawViol(n, Adj) = {}
\* removing one direction of a connection, or adding a self-connection, is noticed
Noticed == \A i \in 1..n : /\ LawViol(n, [Adj EXCEPT ![i] = Append(@, i)]) # {}
                           /\ Adj[i] # <<>> => LawViol(n, [Adj EXCEPT ![i] = Tail(@)]) # {}
=============================================================================
