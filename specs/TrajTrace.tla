------------------------------ MODULE TrajTrace ------------------------------
(* Recorded neutral trajectories.  A record is a whole trajectory:
   steps  : one PointRules record per cast (residual taken from the previous point)
   inside : is the requested start within the first cast's valid block
   same   : is the first pressure exactly the requested one                      *)
EXTENDS PointRules, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
AllNaN(r) == r.p = NaNI /\ r.sn /\ r.tn
TrajClauses(e) ==
  Bad("StartsAtRequest", e.inside # (e.steps[1].p # NaNI) \/ (e.inside /\ ~e.same))
  \union Clauses(e.steps[1])
  \union Bad("StopsForGood", \E i \in 2..Len(e.steps) : AllNaN(e.steps[i - 1]) /\ ~AllNaN(e.steps[i]))
  \union UNION {IF e.steps[i - 1].p # NaNI THEN Clauses(e.steps[i]) ELSE {} : i \in 2..Len(e.steps)}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == TrajClauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
