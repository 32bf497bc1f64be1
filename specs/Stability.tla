------------------------------ MODULE Stability ------------------------------
(* Counting unstable pairs and stabilizing casts (C19).

   Toy equation of state rho = 1000 + s (1 + p/8) - t.  For adjacent bottles the
   difference of density referenced to their mean pressure, times 16, is
       D16 = (s2 - s1)(16 + p1 + p2) - 16 (t2 - t1),
   an integer.  Minimum gradients are mn[i]/16 per unit pressure.

   With an interpolant, every bottle of the first valid block is looked at instead:
   the slopes of salinity and temperature there (of the linear interpolant: those of
   the interval above it, for the first bottle of the interval below it) combine with
   the partial derivatives of density at the bottle.

   Behaviour: scan the pairs one by one and count those that are not stable
   (wherever both bottles are valid), and the bottles likewise; then judge the first valid block: if every
   pair has at least the minimum gradient the cast is left alone, otherwise it is
   changed.  Among all changes that reach the minimum, the smallest one (salinity
   changes squared weigh w = wt/10) is made; for a cast of two bottles it is known in
   closed form:  with A = 1 + (p1+p2)/16 and shortfall d = min - density step,
       dS2 = -dS1 = d A / (2 (A^2 + w)),   dT1 = -dT2 = d w / (2 (A^2 + w)).     *)
EXTENDS Cast
CONSTANTS NN, Gaps, Bottles, Mins, Weights
VARIABLES sal, tmp, prs, mn, wt, blk, k, count, icount, pc, new
vars == <<sal, tmp, prs, mn, wt, blk, k, count, icount, pc, new>>
fixed == <<sal, tmp, prs, mn, wt, blk>>
N == Len(sal)
OkPair(i) == sal[i] # NaNI /\ sal[i + 1] # NaNI
D16(i) == (sal[i + 1] - sal[i]) * (16 + prs[i] + prs[i + 1]) - 16 * (tmp[i + 1] - tmp[i])
\* slope at bottle i times 8 dp
Left(i) == IF i = blk[1] THEN i ELSE i - 1
D8(i) == LET j == Left(i) IN (sal[j + 1] - sal[j]) * (8 + prs[i]) - 8 * (tmp[j + 1] - tmp[j])
Short(i) == mn[i] * (prs[i + 1] - prs[i]) - D16(i)        \* > 0: below the minimum (times 16)

Init == \E n \in NN : \E g \in [1..(n - 1) -> Gaps] : \E w \in [1..n -> Bottles] : \E m \in [1..(n - 1) -> Mins] :
          /\ sal = [i \in 1..n |-> w[i][1]] /\ tmp = [i \in 1..n |-> w[i][2]]
          /\ prs = [i \in 1..n |-> CumP(4, g, i)]
          /\ mn = m /\ wt \in Weights
          /\ blk = CastBlock(sal, prs)
          /\ k = 1 /\ count = 0 /\ icount = 0 /\ pc = "scan" /\ new = <<>>
Stable == pc = "scan" /\ k < N /\ ~(OkPair(k) /\ D16(k) <= 0) /\ k' = k + 1 /\ UNCHANGED <<fixed, count, icount, pc, new>>
Unstable == pc = "scan" /\ k < N /\ OkPair(k) /\ D16(k) <= 0 /\ k' = k + 1 /\ count' = count + 1 /\ UNCHANGED <<fixed, icount, pc, new>>
Bottle == pc = "scan" /\ k = N /\ pc' = "bottles" /\ k' = 1 /\ UNCHANGED <<fixed, count, icount, new>>
Falls(i) == Usable(blk) /\ i \in blk[1]..blk[2] /\ D8(i) < 0
Look == /\ pc = "bottles" /\ k <= N /\ k' = k + 1
        /\ icount' = icount + (IF Falls(k) THEN 1 ELSE 0)
        /\ UNCHANGED <<fixed, count, pc, new>>
Judge == pc = "bottles" /\ k = N + 1 /\ pc' = "judge" /\ UNCHANGED <<fixed, k, count, icount, new>>
Below == {i \in blk[1]..(blk[2] - 1) : Short(i) > 0}
LeaveAlone == pc = "judge" /\ Below = {} /\ pc' = "same" /\ UNCHANGED <<fixed, k, count, icount, new>>
Two(i) == LET A == Norm(16 + prs[i] + prs[i + 1], 16)
              d == Norm(Short(i), 16)
              q == RMul(R(2), RAdd(RMul(A, A), Norm(wt, 10)))
          IN <<RDiv(RMul(d, A), q), RDiv(RMul(d, Norm(wt, 10)), q)>>      \* <<dS2 = -dS1, dT1 = -dT2>>
Change == /\ pc = "judge" /\ Below # {} /\ pc' = "changed"
          /\ new' = IF blk[2] - blk[1] = 1 THEN Two(blk[1]) ELSE <<>>
          /\ UNCHANGED <<fixed, k, count, icount>>
Next == Stable \/ Unstable \/ Bottle \/ Look \/ Judge \/ LeaveAlone \/ Change
Spec == Init /\ [][Next]_vars

Counted == pc # "scan" => count = Cardinality({i \in 1..(N - 1) : OkPair(i) /\ D16(i) <= 0})
\* an interpolated fall is one of an interval next to the bottle whose densities, referenced there, fall
ICounted == pc \in {"judge", "same", "changed"} =>
  icount = Cardinality({i \in 1..N : /\ Usable(blk) /\ blk[1] <= i /\ i <= blk[2]
             /\ \E j \in blk[1]..(blk[2] - 1) : /\ (j = i - 1 \/ (i = blk[1] /\ j = i))
                  /\ 8 * tmp[j + 1] - sal[j + 1] * (8 + prs[i]) > 8 * tmp[j] - sal[j] * (8 + prs[i])})
Alone == pc = "same" => \A i \in blk[1]..(blk[2] - 1) : Short(i) <= 0
\* after the closed-form change the gradient is exactly the minimum, and it is the nearest such point:
\* the change is parallel to the weighted normal of the constraint
Reached == pc = "changed" /\ new # <<>> =>
   LET i == blk[1]  A == Norm(16 + prs[i] + prs[i + 1], 16)
   IN RAdd(RMul(R(2), RMul(A, new[1])), RMul(R(2), new[2])) = Norm(Short(i), 16)
Nearest == pc = "changed" /\ new # <<>> =>
   LET i == blk[1]  A == Norm(16 + prs[i] + prs[i + 1], 16) IN RMul(new[1], Norm(wt, 10)) = RMul(new[2], A)
Inv == Counted /\ ICounted /\ Alone /\ Reached /\ Nearest
Emitted == pc \in {"same", "changed"} =>
   Emit([s |-> sal, t |-> tmp, p |-> prs, mn |-> mn, wt |-> wt, k |-> blk[1], kk |-> blk[2], count |-> count, icount |-> icount, out |-> pc, new |-> new])
=============================================================================
