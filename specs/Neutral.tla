------------------------------- MODULE Neutral -------------------------------
(* Neutral links and neutral trajectories (C09).

   Toy equation of state rho = 1000 + s (1 + p/8) - t.  A link from bottle
   (sB, tB, pB) to a cast of constant salinity sc is neutral at pressure p when
       (sB - sc) (16 + p + pB) - 16 tB + 16 T(p) = 0           (16 x density difference)
   which is linear in p between data.

   State machine: the trajectory walks from cast to cast.  Start puts the first
   point, Link joins the current point to the next cast (any zero that a
   bracketing search could return), Stop when none need exist.               *)
EXTENDS Cast
CONSTANTS Casts,      \* set of casts: records [s |-> int, t |-> seq, p |-> seq], NaNI = missing bottle
          NCasts,     \* trajectory length
          Starts      \* requested starting pressures (rationals)
VARIABLES line, p0, at, pts, pc
vars == <<line, p0, at, pts, pc>>
None == <<>>
Blk(c) == CastBlock(c.t, c.p)

TAt(c, q) == PLAt(c.t, c.p, Blk(c), q)
Inside(c, q) == InBlk(c.p, Blk(c), q)
Point(c, q) == [s |-> c.s, t |-> TAt(c, q), p |-> q]

Resid(b, c, i) == RAdd(RSub(RMul(R(b.s - c.s), RAdd(R(16 + c.p[i]), b.p)), RMul(R(16), b.t)), R(16 * c.t[i]))
RV(b, c) == [i \in Blk(c)[1]..Blk(c)[2] |-> Resid(b, c, i)]
Links(b, c) == IF Usable(Blk(c)) THEN RZeros(RV(b, c), c.p, Blk(c)) ELSE {}
MustLink(b, c) == Usable(Blk(c)) /\ RSgn(RV(b, c)[Blk(c)[1]]) * RSgn(RV(b, c)[Blk(c)[2]]) < 0

Init == line \in [1..NCasts -> Casts] /\ p0 \in Starts /\ at = 0 /\ pts = <<>> /\ pc = "walk"
Start == /\ pc = "walk" /\ at = 0 /\ at' = 1
         /\ IF Inside(line[1], p0) THEN pts' = <<Point(line[1], p0)>> /\ pc' = "walk"
                                   ELSE pts' = <<None>> /\ pc' = "stopped"
         /\ UNCHANGED <<line, p0>>
Link == /\ pc = "walk" /\ at \in 1..(NCasts - 1)
        /\ \E z \in Links(pts[at], line[at + 1]) :
             /\ z[1] = z[2]                       \* a whole interval of answers is not followed further
             /\ pts' = Append(pts, Point(line[at + 1], z[1]))
        /\ at' = at + 1 /\ UNCHANGED <<line, p0, pc>>
Stop == /\ pc = "walk" /\ at \in 1..(NCasts - 1) /\ ~MustLink(pts[at], line[at + 1])
        /\ pts' = Append(pts, None) /\ at' = at + 1 /\ pc' = "stopped" /\ UNCHANGED <<line, p0>>
Idle == pc = "stopped" /\ at < NCasts /\ pts' = Append(pts, None) /\ at' = at + 1 /\ UNCHANGED <<line, p0, pc>>
Next == Start \/ Link \/ Stop \/ Idle
Spec == Init /\ [][Next]_vars

Done == at = NCasts
\* the guarantees
StartsAtRequest == at >= 1 /\ pts[1] # None => pts[1].p = p0
StopsForGood == \A i, j \in DOMAIN pts : i < j /\ pts[i] = None => pts[j] = None
\* densities of consecutive points agree at their mean pressure
NeutralSteps == \A i \in 1..(Len(pts) - 1) : pts[i] # None /\ pts[i + 1] # None =>
   LET a == pts[i]  b == pts[i + 1] IN
   RAdd(RSub(RMul(R(a.s - b.s), RAdd(R(16), RAdd(b.p, a.p))), RMul(R(16), a.t)), RMul(R(16), b.t)) = Zero
OnCasts == \A i \in DOMAIN pts : pts[i] # None => Inside(line[i], pts[i].p) /\ pts[i].s = line[i].s
\* a sign change forces a link
NoEarlyStop == \A i \in 1..(Len(pts) - 1) : pts[i] # None /\ pts[i + 1] = None => ~MustLink(pts[i], line[i + 1])
MustHasLink == pc = "walk" /\ at \in 1..(NCasts - 1) /\ MustLink(pts[at], line[at + 1]) => Links(pts[at], line[at + 1]) # {}
Inv == StartsAtRequest /\ StopsForGood /\ NeutralSteps /\ OnCasts /\ NoEarlyStop /\ MustHasLink
\* an interval of zeros was met: the input is not replayed
Wide == \E i \in 1..(Len(pts) - 1) : pts[i] # None /\ \E z \in Links(pts[i], line[i + 1]) : z[1] # z[2]
Emitted == Done => Emit([c |-> line, p0 |-> p0, wide |-> Wide,
                         p |-> [i \in DOMAIN pts |-> IF pts[i] = None THEN <<>> ELSE pts[i].p],
                         t |-> [i \in DOMAIN pts |-> IF pts[i] = None THEN <<>> ELSE pts[i].t]])
=============================================================================
