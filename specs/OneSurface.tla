----------------------------- MODULE OneSurface -----------------------------
(* An ocean whose density does not feel pressure (C26).

   A cast is a sequence of densities (missing data: NaNI) at pressures, strictly denser
   downwards in its first valid block.  Every way of following the water must then give
   the same surface through the pin:
     Follow  one neutral link after the other, outward from the pin, in any order
             (omega surfaces grown by wetting, neutral trajectories, links)
     Heave   a patch of casts given by an arbitrary surface is heaved by one global
             density perturbation; casts that cannot follow fall dry (an omega step)
     Iso     the isosurface of potential density, whatever the reference (potential and
             anomaly surfaces, the mixed layer with that threshold)
   The invariants say that Follow and Heave never leave Iso, that the order of
   following does not matter, and where the surface ends.                         *)
EXTENDS Cast, Randomization
CONSTANTS N, Kinds, Graphs, Tys, Pins
VARIABLES g, ty, pin, p, pc
vars == <<g, ty, pin, p, pc>>
Nodes == 1..N
None == <<>>
D(n) == Kinds[ty[n]].d
X(n) == Kinds[ty[n]].x
Blk(n) == CastBlock(D(n), X(n))
At(n, q) == PLAt(D(n), X(n), Blk(n), q)
\* where density r is found on cast n (at most one place: denser downwards)
Where(n, r) == IF ~Usable(Blk(n)) THEN None
               ELSE LET z == RZeros([i \in Blk(n)[1]..Blk(n)[2] |-> RSub(R(D(n)[i]), r)], X(n), Blk(n))
                    IN IF z = {} THEN None ELSE (CHOOSE y \in z : TRUE)[1]
Denser == \A k \in DOMAIN Kinds : LET b == CastBlock(Kinds[k].d, Kinds[k].x) IN \A i \in b[1]..(b[2] - 1) : Kinds[k].d[i] < Kinds[k].d[i + 1]
ASSUME Denser

Nbrs(n) == {m \in Nodes : \E e \in DOMAIN g : g[e] = <<n, m>> \/ g[e] = <<m, n>>} \ {n}
RECURSIVE Reach(_, _)
Reach(A, ok) == LET B == A \union {m \in ok : \E n \in A : m \in Nbrs(n)} IN IF B = A THEN A ELSE Reach(B, ok)

Target == At(1, pin)
Iso == [n \in Nodes |-> Where(n, Target)]
On == {n \in Nodes : Iso[n] # None}
\* no bottle has exactly the density of the surface (rounding would decide there)
NoTie == \A n \in Nodes : \A i \in Blk(n)[1]..Blk(n)[2] : R(D(n)[i]) # Target
Visited == {n \in Nodes : p[n] # None}

Init == /\ g \in Graphs /\ ty \in Tys /\ pin \in Pins
        /\ InBlk(X(1), Blk(1), pin) /\ NoTie
        /\ p = [n \in Nodes |-> IF n = 1 THEN pin ELSE None] /\ pc = "follow"
Follow(m, n) == /\ pc = "follow" /\ p[m] # None /\ p[n] = None /\ n \in Nbrs(m)
                /\ Where(n, At(m, p[m])) # None
                /\ p' = [p EXCEPT ![n] = Where(n, At(m, p[m]))]
                /\ UNCHANGED <<g, ty, pin, pc>>
Stop == /\ pc = "follow" /\ \A m, n \in Nodes : ~(p[m] # None /\ p[n] = None /\ n \in Nbrs(m) /\ Where(n, At(m, p[m])) # None)
        /\ pc' = "done" /\ UNCHANGED <<g, ty, pin, p>>
Next == Stop \/ \E m, n \in Nodes : Follow(m, n)
Spec == Init /\ [][Next]_vars

OneDensity == \A n \in Visited : At(n, p[n]) = Target
NeverLeavesIso == \A n \in Visited : p[n] = Iso[n]
Extent == pc = "done" => Visited = Reach({1}, On)
\* any starting patch: the perturbation that removes every error, zero at the pin, is the density still missing
Starts(n) == {x \in {X(n)[i] : i \in Blk(n)[1]..Blk(n)[2]} : TRUE}
Heaved(n, x) == Where(n, RAdd(At(n, R(x)), RSub(Target, At(n, R(x)))))
HeaveLandsOnIso == pc = "done" => \A n \in Nodes : Usable(Blk(n)) => \A x \in Starts(n) : Heaved(n, x) = Iso[n]
Inv == OneDensity /\ NeverLeavesIso /\ Extent /\ HeaveLandsOnIso
Emitted == pc = "done" => Emit([g |-> g, ty |-> ty, pin |-> pin, target |-> Target, iso |-> Iso, p |-> p])

AllEdges == {<<a, b>> : a \in Nodes, b \in Nodes}
RECURSIVE SeqOf(_)
SeqOf(A) == IF A = {} THEN <<>> ELSE LET a == CHOOSE a \in A : TRUE IN <<a>> \o SeqOf(A \ {a})
RandomGraphs(k, m) == {SeqOf(a) : a \in RandomSetOfSubsets(k, m, {e \in AllEdges : e[1] # e[2]})}
=============================================================================
