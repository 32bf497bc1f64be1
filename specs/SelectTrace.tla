----------------------------- MODULE SelectTrace -----------------------------
(* Recorded calls of the real surfaces, judged by the decision table of Select.tla.
   hr, hi, hp : complete reference / isovalue / pin given     inside : pin within its cast
   raised     : the call raised an exception
   refg, isog : reported ref / isoval are bit for bit the given ones
   refp, isop : reported ref / isoval agree with the values at the pin
   exact, none: pressure at the pin is bit for bit the requested one / is NaN
   same       : the surface equals the one computed with the reported ref and isoval and no pin
                (away from the pin)                                              *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Clauses(e) ==
  IF e.hr /\ e.hi THEN Bad("AsGiven", e.raised \/ ~e.refg \/ ~e.isog \/ ~e.same)
  ELSE IF ~e.hi /\ e.hp THEN
       Bad("Accepted", e.raised)
       \union (IF e.raised THEN {} ELSE
          IF e.inside THEN Bad("ThroughPin", ~e.exact) \union Bad("IsovalueAtPin", ~e.isop)
                           \union Bad("Reference", IF e.hr THEN ~e.refg ELSE ~e.refp) \union Bad("SameSurface", ~e.same)
          ELSE Bad("NowhereAtPin", ~e.none))
  ELSE Bad("Rejected", ~e.raised)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
