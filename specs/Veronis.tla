------------------------------ MODULE Veronis -------------------------------
(* The Veronis density of one cast (C18).

   Toy equation of state rho = 1000 + s (1 + p/8) - t, so with piecewise linear
   s, t the local stratification rho_s s' + rho_t t' = s' (1 + p/8) - t' is linear
   in p on each piece and its integral is
       s' ((q - a) + (q^2 - a^2)/16) - t' (q - a)
   exactly.  The walk goes piece by piece from the start p0 to p1 (down or up).

   p0 = NaNI: not given, the first pressure is used.                          *)
EXTENDS Cast
CONSTANTS NN, Gaps, Bottles, Sites, Params      \* Params: set of <<reference pressure, factor>>
VARIABLES sal, tmp, prs, blk, p0, p1, par, pos, acc, pc, val
vars == <<sal, tmp, prs, blk, p0, p1, par, pos, acc, pc, val>>
fixed == <<sal, tmp, prs, blk, p0, p1, par>>

Start == IF p0 = NaNI THEN prs[1] ELSE p0
In(p) == InBlk(prs, blk, R(p))
SAt(p) == PLAt(sal, prs, blk, R(p))
TAt(p) == PLAt(tmp, prs, blk, R(p))
PotDens(p) == RAdd(R(1000), RSub(RMul(SAt(p), Norm(8 + par[1], 8)), TAt(p)))       \* referenced to par[1]
\* slopes of piece i
Sl(y, i) == Norm(y[i + 1] - y[i], prs[i + 1] - prs[i])
\* integral of the local stratification from a to q, both within piece i
Piece(i, a, q) == RSub(RMul(Sl(sal, i), RAdd(R(q - a), Norm(q * q - a * a, 16))), RMul(Sl(tmp, i), R(q - a)))
\* closed form: the integral between any two pressures of the block
RECURSIVE Sum(_, _, _)
Sum(i, a, q) == IF i >= blk[2] THEN Zero
                ELSE LET lo == Max2(a, prs[i])  hi == Min2(q, prs[i + 1])
                     IN RAdd(IF lo < hi THEN Piece(i, lo, hi) ELSE Zero, Sum(i + 1, a, q))
Integral(a, q) == IF a <= q THEN Sum(blk[1], a, q) ELSE RNeg(Sum(blk[1], q, a))

Init == \E n \in NN : \E g \in [1..(n - 1) -> Gaps] : \E w \in [1..n -> Bottles] :
          /\ sal = [i \in 1..n |-> w[i][1]] /\ tmp = [i \in 1..n |-> w[i][2]]
          /\ prs = [i \in 1..n |-> CumP(4, g, i)]
          /\ blk = CastBlock(sal, prs)
          /\ p0 \in Sites \union {NaNI} /\ p1 \in Sites /\ par \in Params
          /\ pos = 0 /\ acc = Zero /\ val = <<>> /\ pc = "start"
Begin == /\ pc = "start" /\ UNCHANGED fixed
         /\ IF In(Start) /\ In(p1) THEN pc' = "walk" /\ pos' = Start /\ UNCHANGED <<acc, val>>
            ELSE pc' = "none" /\ UNCHANGED <<pos, acc, val>>
\* the piece to enter from pos in the direction of travel, and where it is left
Down == /\ pc = "walk" /\ pos < p1 /\ UNCHANGED <<fixed, pc, val>>
        /\ LET i == CHOOSE i \in blk[1]..(blk[2] - 1) : prs[i] <= pos /\ pos < prs[i + 1]
               q == Min2(p1, prs[i + 1])
           IN pos' = q /\ acc' = RAdd(acc, Piece(i, pos, q))
Up == /\ pc = "walk" /\ pos > p1 /\ UNCHANGED <<fixed, pc, val>>
      /\ LET i == CHOOSE i \in blk[1]..(blk[2] - 1) : prs[i] < pos /\ pos <= prs[i + 1]
             q == Max2(p1, prs[i])
         IN pos' = q /\ acc' = RAdd(acc, Piece(i, pos, q))
Arrive == /\ pc = "walk" /\ pos = p1 /\ pc' = "done"
          /\ val' = RAdd(PotDens(Start), RMul(R(par[2]), acc)) /\ UNCHANGED <<fixed, pos, acc>>
Next == Begin \/ Down \/ Up \/ Arrive
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Accumulated == pc \in {"walk", "done"} => acc = Integral(Start, pos)
StartsAtPotDens == pc = "done" /\ p1 = Start => val = PotDens(Start)
Reversible == pc = "done" => Integral(p1, Start) = RNeg(acc)
Additive == pc = "done" => \A m \in Sites : In(m) => RAdd(Integral(Start, m), Integral(m, p1)) = acc
Outside == pc = "none" => ~In(Start) \/ ~In(p1)
Inv == Accumulated /\ StartsAtPotDens /\ Reversible /\ Additive /\ Outside
Finishes == <>(pc \in {"done", "none"})
Emitted == pc \in {"done", "none"} => Emit([s |-> sal, t |-> tmp, p |-> prs, p0 |-> p0, p1 |-> p1, par |-> par, val |-> val])
=============================================================================
