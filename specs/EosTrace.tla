------------------------------ MODULE EosTrace ------------------------------
(* Recorded comparisons of equation-of-state functions.  Each record names the
   rule it instantiates and carries the discrepancy in units of the tolerance
   (d) - NaNI if the code gave NaN - and whether the state is a valid one.      *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rules == {"derivative", "library", "polynomial", "boussinesq", "vectorised", "request", "bundle"}
Clauses(e) == IF e.rule \notin Rules THEN {"UnknownRule"}
              ELSE IF e.d = NaNI \/ e.d > 1 THEN {e.rule} ELSE {}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
