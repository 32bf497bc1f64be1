----------------------------- MODULE AttainTrace -----------------------------
(* A converged omega surface against the neutral surface that exists (C23).
   eps: neutrality error of every edge; p: pressure of every cast on the surface,
   q: the pressure reached by following links from the pin, ty: its kind.          *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Far(x, y, d) == IsNaN(x) # IsNaN(y) \/ (~IsNaN(x) /\ Abs(x - y) > d)
Clauses(e) == Bad("EveryLinkNeutral", \E i \in DOMAIN e.eps : Abs(e.eps[i]) > e.eslack)
        \union Bad("FollowsTheLinks", \E n \in DOMAIN e.p : Far(e.p[n], e.q[n], e.slack))
        \union Bad("SameKindSamePressure", \E n, m \in DOMAIN e.p : e.ty[n] = e.ty[m] /\ Far(e.p[n], e.p[m], e.slack))
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
