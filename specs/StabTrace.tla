------------------------------ MODULE StabTrace ------------------------------
(* Recorded stabilizations, one record per cast.
   v: valid bottles before; va: after; below: pairs under the minimum before (1/0,
   judged with a margin: 2 = too close to call); short: shortfall of each pair after,
   in tolerances; same: the data are bit for bit as before; outside: data outside the
   first valid block are as before; excess: weighted size of the change beyond the
   smallest possible one, in tolerances; alone: stabilizing the cast alone gives the same. *)
EXTENDS PointRules, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
SClauses(e) ==
  LET b == Blk(e.v)
      pairs == b[1]..(b[2] - 1)
      must == \E i \in pairs : e.below[i] = 1
      may  == \E i \in pairs : e.below[i] > 0
  IN Bad("NaNsKept", e.v # e.va)
     \union Bad("OutsideKept", ~e.outside)
     \union Bad("Untouched", ~may /\ ~e.same)
     \union Bad("Stable", \E i \in pairs : e.short[i] > 1)
     \union Bad("Smallest", e.excess > 1)
     \union Bad("Independent", ~e.alone)
     \union Bad("Count", e.count # e.want)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == SClauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
