---------------------------- MODULE RelabelTrace ----------------------------
(* Recorded pairs of runs on two presentations of one ocean: wet0 / wet1 the casts
   on the surface (in the first numbering), d the largest difference of s, t, p in
   tolerances, extra: added casts that came out wet.                             *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Clauses(e) == Bad("SameRegion", e.wet0 # e.wet1) \union Bad("SameSurface", e.wet0 = e.wet1 /\ e.d > 1) \union Bad("AddedStayDry", e.extra # 0)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
