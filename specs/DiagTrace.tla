------------------------------ MODULE DiagTrace ------------------------------
(* Recorded omega calculations judged by the stopping rule and the bookkeeping of
   Omega.tla (actions Check, Finish; invariants IterBounds, FirstStop).

   kind "stop": imin, imax, n iterations performed, lens: lengths of the diagnostics,
      ph[k], dp[k] = 1 iff the perturbation / pressure change of iteration k (recomputed)
      is below its enabled tolerance, known for k up to Len(ph);
      same: the surface is bit for bit the one of a run of exactly n iterations
   kind "diag": entry k of the diagnostics: nw / cw reported and counted wet casts,
      nn reported newly wet, grew: casts wet after but not before, win: inside the wetting window,
      u: distances of the reported statistics from the recomputed ones, in tolerances     *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Stops(e) == {k \in 1..Len(e.ph) : k >= e.imin /\ k <= e.imax /\ (e.ph[k] = 1 \/ e.dp[k] = 1)}
StopAt(e) == IF Stops(e) = {} THEN e.imax ELSE CHOOSE k \in Stops(e) : \A j \in Stops(e) : k <= j
Clauses(e) ==
  IF e.kind = "stop"
  THEN Bad("Iterations", e.n # StopAt(e))
       \union Bad("OneEntryPerIteration", \E i \in DOMAIN e.lens : e.lens[i] # e.n + 1)
       \union Bad("SameSurface", ~e.same)
  ELSE Bad("WetCount", e.nw # e.cw)
       \union Bad("NewlyWet", (~e.win /\ e.nn # 0) \/ e.nn < e.grew)
       \union Bad("Statistics", \E i \in DOMAIN e.u : e.u[i] > 1)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
