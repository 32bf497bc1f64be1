------------------------------ MODULE PinTrace ------------------------------
(* Recorded omega surfaces at their pinning cast (invariant Pinned and action
   Start of Omega.tla).  inside: requested pressure within the cast's valid data;
   raised: an error was raised; exact: pressure there is bit for bit the request;
   st: salinity and temperature are the cast's at that pressure.               *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Clauses(e) == IF e.inside THEN Bad("Computed", e.raised) \union Bad("Pinned", ~e.raised /\ ~e.exact) \union Bad("OnCast", ~e.raised /\ ~e.st)
              ELSE Bad("Rejected", ~e.raised)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
