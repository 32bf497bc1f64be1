-------------------------------- MODULE Cast --------------------------------
(* A water column: sequences of salinity, temperature and pressure with missing
   data, its first valid block, and where a piecewise linear property of it
   takes a given value.                                                       *)
EXTENDS Rat
\* a bottle is <<S, T>> or NoB (missing)
NoB == <<NaNI, NaNI>>
ValidAt(sal, prs, i) == sal[i] # NaNI /\ prs[i] # NaNI
\* <<k, K>> first unbroken block (k > K: none)
CastBlock(sal, prs) ==
  IF \E i \in DOMAIN sal : ValidAt(sal, prs, i)
  THEN LET k == CHOOSE i \in DOMAIN sal : ValidAt(sal, prs, i) /\ \A j \in 1..(i - 1) : ~ValidAt(sal, prs, j)
           K == CHOOSE i \in k..Len(sal) : /\ \A j \in k..i : ValidAt(sal, prs, j)
                                           /\ (i = Len(sal) \/ ~ValidAt(sal, prs, i + 1))
       IN <<k, K>>
  ELSE <<1, 0>>
Usable(b) == b[2] - b[1] >= 1

RECURSIVE CumP(_, _, _)
CumP(p0, g, i) == IF i = 1 THEN p0 ELSE CumP(p0, g, i - 1) + g[i - 1]

\* v[i]: integer values at the data of block b; x: pressures.  Zeros of the piecewise
\* linear function: a set of intervals <<lo, hi>> of rationals
Zeros(v, x, b) == UNION {
   LET a == v[i]  c == v[i + 1]
   IN IF a = 0 /\ c = 0 THEN {<<R(x[i]), R(x[i + 1])>>}
      ELSE IF a = 0 THEN {<<R(x[i]), R(x[i])>>}
      ELSE IF c = 0 THEN {<<R(x[i + 1]), R(x[i + 1])>>}
      ELSE IF Sgn(a) # Sgn(c)
           THEN LET z == RAdd(R(x[i]), RMul(Norm(a, a - c), R(x[i + 1] - x[i]))) IN {<<z, z>>}
      ELSE {} : i \in b[1]..(b[2] - 1)}
\* ends of the block bracket zero
EndsBracket(v, b) == v[b[1]] = 0 \/ (v[b[2]] # 0 /\ Sgn(v[b[1]]) # Sgn(v[b[2]]))
\* a zero exactly at the deepest datum may be lost to rounding
EndTie(v, b) == v[b[2]] = 0 /\ v[b[1]] # 0

\* the same for rational values
RZeros(v, x, b) == UNION {
   LET a == v[i]  d == v[i + 1]
   IN IF a = Zero /\ d = Zero THEN {<<R(x[i]), R(x[i + 1])>>}
      ELSE IF a = Zero THEN {<<R(x[i]), R(x[i])>>}
      ELSE IF d = Zero THEN {<<R(x[i + 1]), R(x[i + 1])>>}
      ELSE IF RSgn(a) # RSgn(d)
           THEN LET z == RAdd(R(x[i]), RMul(RDiv(a, RSub(a, d)), R(x[i + 1] - x[i]))) IN {<<z, z>>}
      ELSE {} : i \in b[1]..(b[2] - 1)}
\* piecewise linear value of integer data y (sites x, block b) at rational q inside the block
Locate(x, b, q) == CHOOSE i \in b[1]..(b[2] - 1) : RLe(R(x[i]), q) /\ RLe(q, R(x[i + 1]))
PLAt(y, x, b, q) == LET i == Locate(x, b, q) IN
                    RAdd(R(y[i]), RMul(R(y[i + 1] - y[i]), Norm1(RSub(q, R(x[i])), x[i + 1] - x[i])))
InBlk(x, b, q) == Usable(b) /\ RLe(R(x[b[1]]), q) /\ RLe(q, R(x[b[2]]))

SetToSeqR(S) == LET RECURSIVE F(_)
                    F(T) == IF T = {} THEN <<>> ELSE LET e == CHOOSE e \in T : TRUE IN <<e>> \o F(T \ {e})
                IN F(S)
=============================================================================
