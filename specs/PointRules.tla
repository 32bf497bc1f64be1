------------------------------ MODULE PointRules ------------------------------
(* Recorded points that the code put on water columns, judged against the rules
   of Isopycnal.tla / Neutral.tla / MixedLayer.tla.  One record per column:

   v    : 1 where the column has a valid bottle        x : its pressures (fixed point)
   p    : pressure answered (NaNI = none)              sn, tn : are s, t NaN
   f    : sign of the residual at every bottle (0 where missing)
   r    : signs of the residual at points of [p - tol, p + tol] (0 when p is NaN)
   ds,dt: distance of s, t from the interpolant at p, in units of the tolerance
   own  : TRUE if the value is imposed (a pin): no residual is judged            *)
EXTENDS Util
Blk(v) == IF \E i \in DOMAIN v : v[i] = 1
          THEN LET k == CHOOSE i \in DOMAIN v : v[i] = 1 /\ \A j \in 1..(i - 1) : v[j] = 0
                   K == CHOOSE i \in k..Len(v) : (\A j \in k..i : v[j] = 1) /\ (i = Len(v) \/ v[i + 1] = 0)
               IN <<k, K>>
          ELSE <<1, 0>>
Usable(b) == b[2] - b[1] >= 1
Bad(c, cond) == IF cond THEN {c} ELSE {}
Clauses(e) ==
  LET b == Blk(e.v) IN
  Bad("SharedNaN", e.sn # (e.p = NaNI) \/ e.tn # (e.p = NaNI))
  \union Bad("UnusableIsNaN", ~Usable(b) /\ e.p # NaNI)
  \union Bad("InBlock", e.p # NaNI /\ Usable(b) /\ ~(e.x[b[1]] - 1 <= e.p /\ e.p <= e.x[b[2]] + 1))
  \union Bad("Interpolated", e.p # NaNI /\ (e.ds > 1 \/ e.dt > 1))
  \union (IF e.own THEN {} ELSE
       Bad("PresentIfBracketed", Usable(b) /\ e.p = NaNI
              /\ e.f[b[1]] # 0 /\ e.f[b[2]] # 0 /\ e.f[b[1]] # e.f[b[2]])
       \union Bad("OnIsovalue", e.p # NaNI /\ Usable(b) /\ (\A i \in DOMAIN e.r : e.r[i] > 0))
       \union Bad("OnIsovalue", e.p # NaNI /\ Usable(b) /\ (\A i \in DOMAIN e.r : e.r[i] < 0)))
=============================================================================
