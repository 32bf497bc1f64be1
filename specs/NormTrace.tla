------------------------------ MODULE NormTrace ------------------------------
(* Recorded neutrality errors, norms and wet counts of real surfaces, against
   the definition of Epsilon.tla.
   on   : 1 where the node is on the surface        edges : its edge list
   en   : 1 where the reported edge error is finite
   de   : |reported - defined| error per edge, in units of the tolerance (0 where NaN)
   dr,dm: same for the RMS and MAV norms            nw : reported number of wet casts *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Clauses(e) ==
  Bad("NaNIffOff", \E k \in DOMAIN e.en : (e.en[k] = 1) # (e.on[e.edges[k][1]] = 1 /\ e.on[e.edges[k][2]] = 1))
  \union Bad("Definition", \E k \in DOMAIN e.de : e.de[k] > 1)
  \union Bad("RMS", e.dr > 1) \union Bad("MAV", e.dm > 1)
  \union Bad("WetCount", e.nw # SumSeq(e.on))
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
