------------------------------ MODULE OneTrace ------------------------------
(* One real ocean with an equation of state frozen at a pressure: what every
   calculation says about the surface through the pin (C26).
   edges, pin; iso, anom, omega, ref2: pressures per cast (fixed point; NaNI: off the surface)
   of the potential, anomaly, omega surfaces and of a potential surface with another
   reference; path, traj: casts of a path and the trajectory along it; dens: density excess on
   the omega surface; margin: no cast ends near the density of the surface.            *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Far(x, y, d) == IsNaN(x) # IsNaN(y) \/ (~IsNaN(x) /\ Abs(x - y) > d)
Nbrs(e, n) == {e.edges[i][2] : i \in {i \in DOMAIN e.edges : e.edges[i][1] = n}} \union {e.edges[i][1] : i \in {i \in DOMAIN e.edges : e.edges[i][2] = n}}
RECURSIVE Reach(_, _, _)
Reach(e, A, ok) == LET B == A \union {m \in ok : \E n \in A : m \in Nbrs(e, n)} IN IF B = A THEN A ELSE Reach(e, B, ok)
On(e) == {n \in DOMAIN e.iso : ~IsNaN(e.iso[n])}
\* the trajectory follows the surface until the first cast the surface does not reach
Until(e) == LET off == {i \in DOMAIN e.path : IsNaN(e.iso[e.path[i]])}
            IN IF off = {} THEN Len(e.path) ELSE (CHOOSE i \in off : \A j \in off : i <= j) - 1
Clauses(e) == Bad("SurfaceIgnoresReference", \E n \in DOMAIN e.iso : Far(e.iso[n], e.ref2[n], e.slack))
        \union Bad("AnomalySurfaceIsPotentialSurface", \E n \in DOMAIN e.iso : Far(e.iso[n], e.anom[n], e.slack))
        \union Bad("OmegaReachesTheConnectedPart", e.margin /\ {n \in DOMAIN e.omega : ~IsNaN(e.omega[n])} # Reach(e, {e.pin}, On(e)))
        \union Bad("OmegaKeepsTheDensity", \E n \in DOMAIN e.dens : ~IsNaN(e.dens[n]) /\ Abs(e.dens[n]) > e.dslack)
        \union Bad("TrajectoryOnSurface", \E i \in DOMAIN e.path : Far(e.traj[i], IF i <= Until(e) THEN e.iso[e.path[i]] ELSE NaNI, e.slack))
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
