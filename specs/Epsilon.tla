------------------------------ MODULE Epsilon ------------------------------
(* Neutrality errors on the edges of a surface and their area-weighted norms
   (C08).  Toy equation of state gradient (per edge midpoint state):
       rho_s = 1 + p/8 + s^2/4 + t/16        rho_t = -1 - t/2 - s p/32
   so that 128 * eps is an integer for integer data.

   State: the surface (a node is <<s, t, p>> or Off), the list of edges with
   their lengths and face widths, and the running sums.  One Measure step per
   edge, then Report.                                                        *)
EXTENDS Rat
CONSTANTS NNodes, States, EdgeLists, Dists, Perps   \* Dists/Perps: sequences, or <<>> = not given
VARIABLES node, edges, dist, perp, i, eps, pc
vars == <<node, edges, dist, perp, i, eps, pc>>
Off == <<NaNI, NaNI, NaNI>>

D(k) == IF dist = <<>> THEN 1 ELSE IF Len(dist) = 1 THEN dist[1] ELSE dist[k]
W(k) == IF perp = <<>> THEN 1 ELSE IF Len(perp) = 1 THEN perp[1] ELSE perp[k]

E128(a, b) ==
  IF a = Off \/ b = Off THEN NaNI
  ELSE LET s2 == a[1] + b[1]  t2 == a[2] + b[2]  p2 == a[3] + b[3]
           rs == 128 + 8 * p2 + 8 * s2 * s2 + 4 * t2
           rt == -128 - 32 * t2 - s2 * p2
       IN rs * (b[1] - a[1]) + rt * (b[2] - a[2])

Init == /\ node \in [1..NNodes -> States \union {Off}]
        /\ edges \in EdgeLists /\ dist \in Dists /\ perp \in Perps
        /\ i = 0 /\ eps = <<>> /\ pc = "measure"
Measure == /\ pc = "measure" /\ i < Len(edges) /\ i' = i + 1
           /\ eps' = Append(eps, E128(node[edges[i + 1][1]], node[edges[i + 1][2]]))
           /\ UNCHANGED <<node, edges, dist, perp, pc>>
Report == /\ pc = "measure" /\ i = Len(edges) /\ pc' = "done"
          /\ UNCHANGED <<node, edges, dist, perp, i, eps>>
Next == Measure \/ Report
Spec == Init /\ [][Next]_vars

Fin == {k \in 1..Len(eps) : eps[k] # NaNI}
RECURSIVE RSum(_, _)
RSum(f, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSum(f, S \ {x}))
Area == SumOver([k \in Fin |-> D(k) * W(k)], Fin)
\* weights are areas; the error per unit length is eps / dist.  (128^2 RMS^2, 128 MAV)
Grad(k) == Norm(eps[k], D(k))
MeanSq  == IF Fin = {} THEN Zero ELSE RDiv(RSum([k \in Fin |-> RMul(R(D(k) * W(k)), RMul(Grad(k), Grad(k)))], Fin), R(Area))
MeanAbs == IF Fin = {} THEN Zero ELSE RDiv(RSum([k \in Fin |-> RMul(R(D(k) * W(k)), RAbs(Grad(k)))], Fin), R(Area))

Done == pc = "done"
NaNIffOff == \A k \in 1..Len(eps) : (eps[k] = NaNI) <=> (node[edges[k][1]] = Off \/ node[edges[k][2]] = Off)
Antisym == \A k \in 1..Len(eps) : eps[k] # NaNI => E128(node[edges[k][2]], node[edges[k][1]]) = -eps[k]
LoopsZero == \A k \in Fin : edges[k][1] = edges[k][2] => eps[k] = 0
\* the mean absolute value never exceeds the root mean square
Jensen == Done => RLe(RMul(MeanAbs, MeanAbs), MeanSq)
NoEdges == Done /\ Fin = {} => MeanSq = Zero /\ MeanAbs = Zero
\* lengths in another unit: distances u times, face widths w times as large leave the weights' shares
\* alone, so both norms are u times smaller (the replay does this with u, w from 2^-40 to 2^40)
ScaledMean(f(_), u, w) == RDiv(RSum([k \in Fin |-> RMul(R(u * w * D(k) * W(k)), f(Norm(eps[k], u * D(k))))], Fin), R(u * w * Area))
Sq(x) == RMul(x, x)
Units == Done /\ Fin # {} /\ Area <= 12 => /\ RMul(R(4), ScaledMean(Sq, 2, 3)) = MeanSq
                                        /\ RMul(R(2), ScaledMean(RAbs, 2, 3)) = MeanAbs
Inv == Units /\ NaNIffOff /\ Antisym /\ LoopsZero /\ Jensen /\ NoEdges
Emitted == Done => Emit([node |-> node, edges |-> edges, dist |-> dist, perp |-> perp, e |-> eps, ms |-> MeanSq, ma |-> MeanAbs,
                         nwet |-> Cardinality({n \in 1..NNodes : node[n] # Off})])
=============================================================================
