------------------------------- MODULE Attain -------------------------------
(* Oceans that allow a perfectly neutral surface (C23).

   Casts come in kinds, ordered in a line; every edge of the graph joins casts of the
   same kind or of two consecutive kinds.  However many cycles the graph has, going
   round any of them meets the same links backwards, so neutral links never
   contradict each other: there is exactly one neutral surface through the pin.

   Toy equation of state rho = 1000 + s (1 + p/8) - t; a cast of kind k has salinity
   Kinds[k].s and temperature Kinds[k].off - p.  The machine follows neutral links
   outward from the pin, in any order.                                             *)
EXTENDS Rat, Randomization
CONSTANTS N, Kinds, Graphs, Tys, PinP    \* Graphs: sets of sequences of edges <<a, b>>; Tys: sequences of kinds
VARIABLES g, ty, p
vars == <<g, ty, p>>
Nodes == 1..N
None == <<>>
K(n) == Kinds[ty[n]]
Temp(n) == RSub(R(K(n).off), p[n])
Visited == {n \in Nodes : p[n] # None}
Nbrs(n) == {m \in Nodes : \E e \in DOMAIN g : g[e] = <<n, m>> \/ g[e] = <<m, n>>} \ {n}
RECURSIVE Reach(_)
Reach(X) == LET Y == X \union UNION {Nbrs(n) : n \in X} IN IF Y = X THEN X ELSE Reach(Y)

Init == /\ g \in Graphs /\ ty \in Tys
        /\ \A e \in DOMAIN g : Abs(ty[g[e][1]] - ty[g[e][2]]) <= 1
        /\ p = [n \in Nodes |-> IF n = 1 THEN R(PinP) ELSE None]
        /\ Reach({1}) = Nodes
LinkAt(m, n) == LET d == K(m).s - K(n).s
                IN RDiv(RAdd(RMul(R(d), RAdd(R(16), p[m])), RSub(R(16 * K(n).off), RMul(R(16), Temp(m)))), R(16 - d))
Follow(m, n) == p[m] # None /\ p[n] = None /\ n \in Nbrs(m) /\ p' = [p EXCEPT ![n] = LinkAt(m, n)] /\ UNCHANGED <<g, ty>>
Next == \E m, n \in Nodes : Follow(m, n)
Spec == Init /\ [][Next]_vars

\* density difference across an edge, at mid pressure
Eps(a, b) == RSub(RMul(RAdd(R(1), Norm1(RAdd(p[a], p[b]), 16)), R(K(b).s - K(a).s)), RSub(Temp(b), Temp(a)))
\* every edge between visited casts is neutral, those that were not followed too
Neutral == \A e \in DOMAIN g : LET a == g[e][1]  b == g[e][2] IN p[a] # None /\ p[b] # None => Eps(a, b) = Zero
ByKind == \A a, b \in Visited : ty[a] = ty[b] => p[a] = p[b]
\* links agree whichever neighbour they are followed from
OneLink == \A n \in Nodes \ Visited : \A a, b \in Nbrs(n) \intersect Visited : LinkAt(a, n) = LinkAt(b, n)
Inv == Neutral /\ ByKind /\ OneLink
Done == Visited = Nodes
Emitted == Done => Emit([g |-> g, ty |-> ty, p |-> p])
AllEdges == {<<a, b>> : a \in Nodes, b \in Nodes}
\* random graphs as sequences of edges, of either direction, sometimes doubled
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
RandomGraphs(k, m) == {SeqOf(x) : x \in RandomSetOfSubsets(k, m, {e \in AllEdges : e[1] # e[2]})}
=============================================================================
