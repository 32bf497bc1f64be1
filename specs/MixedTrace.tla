------------------------------ MODULE MixedTrace ------------------------------
(* Recorded mixed-layer bases.  v: valid bottles; f: sign of (density excess over
   the near-surface bottle - threshold) at each bottle; near: near-surface bottle
   present; ok: a base was returned; du: its distance from the interpolated
   crossing, in tolerances.                                                    *)
EXTENDS PointRules, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
MClauses(e) ==
  LET b == Blk(e.v)
      reached == Usable(b) /\ e.near /\ e.f[b[1]] < 0 /\ e.f[b[2]] > 0
  IN Bad("Present", reached /\ ~e.ok) \union Bad("Absent", ~reached /\ e.ok) \union Bad("Base", reached /\ e.ok /\ e.du > 1)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == MClauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
