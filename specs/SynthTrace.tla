------------------------------ MODULE SynthTrace ------------------------------
(* Synthetic oceans as made, against what was asked for (C24).
   want, mask: columns of water (per longitude, latitude) as the machine of Synth
     leaves them, and as found: 1 all levels, 0 none, 2 anything else
   p: pressures, pbot: the one asked for              (fixed point)
   rise: surface salinity minus that with no anomaly, anom: the anomaly asked for,
     both per column of longitude and latitude (NaNI: wall); tsame: temperatures agree
   alike: columns of one latitude equal; uniform: asked to be
   geo: geometry, in tolerances *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Clauses(e) ==
  LET nj == Len(e.want[1]) IN
  Bad("Walls", e.mask # e.want)
  \union Bad("Levels", e.p[1] # 0 \/ e.p[Len(e.p)] # e.pbot \/ \E k \in 1..(Len(e.p) - 1) : e.p[k] >= e.p[k + 1])
  \union Bad("SouthernAnomaly", \E i \in DOMAIN e.rise : \E j \in 1..nj :
             ~IsNaN(e.rise[i][j]) /\ Abs(e.rise[i][j] * (nj - 1) - e.anom * (nj - j)) > 2 * nj)
  \union Bad("TemperatureKept", ~e.tsame)
  \union Bad("ZonallyUniform", e.uniform # e.alike)
  \union Bad("Geometry", \E x \in Range(e.geo) : x > 1)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
