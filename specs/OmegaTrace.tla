------------------------------ MODULE OmegaTrace ------------------------------
(* Recorded omega iterations on real columns, judged by the invariants Balanced and
   TreeNeutral of Omega.tla, in scaled integers.
   kind "step": one iteration on an unchanged region
      edges  : <<a, b, w, eps>>, w = 4 * face width / distance, eps before the iteration, a -> b
      known  : 1 where the perturbation is known (the cast stayed on the surface)
      phi    : perturbation recovered from the heaved surface (0 where unknown)
      pin, slack : allowed |sum| per unit of weight
   kind "links": one iteration on an unchanged region without cycles, any widths: every link neutral to first order
   kind "rest": a converged surface: edges as above (eps of the final surface), tree: no cycles
   kind "same": two formulations, u: distance in tolerances at every cast
   kind "solo": the region is one cast, kept: unchanged bit for bit                       *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
At(e, n) == {i \in DOMAIN e.edges : (e.edges[i][1] = n) # (e.edges[i][2] = n)}
Ends(e) == UNION {{e.edges[i][1], e.edges[i][2]} : i \in DOMAIN e.edges}
Out(e, n, i) == IF e.edges[i][1] = n THEN e.edges[i][4] ELSE -e.edges[i][4]
Other(e, n, i) == IF e.edges[i][1] = n THEN e.edges[i][2] ELSE e.edges[i][1]
Weight(e, n) == SumOver([i \in At(e, n) |-> e.edges[i][3]], At(e, n))
Step(e, n) == SumOver([i \in At(e, n) |-> e.edges[i][3] * (Out(e, n, i) + e.phi[Other(e, n, i)] - e.phi[n])], At(e, n))
Rest(e, n) == SumOver([i \in At(e, n) |-> e.edges[i][3] * Out(e, n, i)], At(e, n))
Judged(e, n) == e.known[n] = 1 /\ \A i \in At(e, n) : e.known[Other(e, n, i)] = 1
Clauses(e) ==
  CASE e.kind = "step" -> Bad("Balanced", \E n \in Ends(e) : Judged(e, n) /\ Abs(Step(e, n)) > e.slack * Weight(e, n))
                          \union Bad("PinStays", e.phi[e.pin] # 0)
    [] e.kind = "links" -> Bad("TreeNeutral", \E i \in DOMAIN e.edges : LET x == e.edges[i] IN
                               e.known[x[1]] = 1 /\ e.known[x[2]] = 1 /\ Abs(x[4] + e.phi[x[2]] - e.phi[x[1]]) > e.slack)
                           \union Bad("PinStays", e.phi[e.pin] # 0)
    [] e.kind = "rest" -> Bad("DivergenceFree", \E n \in Ends(e) : Abs(Rest(e, n)) > e.slack * Weight(e, n))
                          \union Bad("TreeNeutral", e.tree /\ \E i \in DOMAIN e.edges : Abs(e.edges[i][4]) > e.slack)
    [] e.kind = "same" -> Bad("FormulationsAgree", \E i \in DOMAIN e.u : e.u[i] > 1)
    [] e.kind = "solo" -> Bad("SoloStays", ~e.kept)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
