---------------------------- MODULE VeronisTrace ----------------------------
(* Recorded Veronis densities.  in0, in1: are the start and p1 within the cast's
   first valid block (of two or more data); fin: a value was returned; d: its
   distance from the exact integral in units of the trapezoidal bound for steps
   of dp; add, rev, conv: the same for additivity, reversal and a refined step.  *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Clauses(e) == Bad("NaNOutside", ~(e.in0 /\ e.in1) /\ e.fin)
       \union Bad("FiniteInside", e.in0 /\ e.in1 /\ ~e.fin)
       \union (IF e.fin /\ e.in0 /\ e.in1
               THEN Bad("Integral", e.d > 1) \union Bad("Additive", e.add > 1) \union Bad("Reversible", e.rev > 1) \union Bad("Converges", e.conv > 1)
               ELSE {})
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
