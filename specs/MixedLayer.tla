----------------------------- MODULE MixedLayer -----------------------------
(* The base of the mixed layer of one cast (C10).

   Toy equation of state rho = 1000 + s (1 + p/8) - t, reference pressure ref:
   D8[i] = 8 (rho_i - 1000) = s (8 + ref) - 8 t, an integer.

   Behaviour: find the first valid block, read the near-surface bottle, then
   descend bottle by bottle until the threshold is bracketed (Reach) or the
   block is exhausted (Exhaust).                                             *)
EXTENDS Cast
CONSTANTS NN, Gaps, Bottles, PMiss, Refs, Thr, Bot     \* Thr: thresholds times 8; Bot: 1-based near-surface bottle
VARIABLES sal, tmp, prs, ref, thr, bot, blk, k, pc, ml
vars == <<sal, tmp, prs, ref, thr, bot, blk, k, pc, ml>>

D8(s, t, i) == s[i] * (8 + ref) - 8 * t[i]
Increasing(b) == \A i \in b[1]..(b[2] - 1) : D8(sal, tmp, i) < D8(sal, tmp, i + 1)

Init == \E n \in NN : \E g \in [1..(n - 1) -> Gaps] : \E w \in [1..n -> Bottles] : \E miss \in PMiss :
          /\ sal = [i \in 1..n |-> w[i][1]] /\ tmp = [i \in 1..n |-> w[i][2]]
          /\ prs = [i \in 1..n |-> IF i \in miss THEN NaNI ELSE CumP(4, g, i)]
          /\ ref \in Refs /\ thr \in Thr /\ bot \in Bot
          /\ blk = CastBlock(sal, prs)
          /\ (Usable(blk) => Increasing(blk))
          /\ k = 0 /\ pc = "read" /\ ml = <<>>
Keep == UNCHANGED <<sal, tmp, prs, ref, thr, bot, blk>>
Near == bot <= Len(sal) /\ sal[bot] # NaNI
Excess(i) == D8(sal, tmp, i) - D8(sal, tmp, bot) - thr
Read == /\ pc = "read" /\ Keep /\ UNCHANGED ml
        /\ IF Near /\ Usable(blk) THEN pc' = "descend" /\ k' = blk[1] ELSE pc' = "none" /\ k' = 0
Descend == /\ pc = "descend" /\ k < blk[2] /\ ~(Excess(k) <= 0 /\ Excess(k + 1) >= 0)
           /\ k' = k + 1 /\ Keep /\ UNCHANGED <<pc, ml>>
Reach == /\ pc = "descend" /\ k < blk[2] /\ Excess(k) <= 0 /\ Excess(k + 1) >= 0
         /\ ml' = RAdd(R(prs[k]), RMul(Norm(-Excess(k), Excess(k + 1) - Excess(k)), R(prs[k + 1] - prs[k])))
         /\ pc' = "found" /\ Keep /\ UNCHANGED k
Exhaust == pc = "descend" /\ k = blk[2] /\ pc' = "none" /\ Keep /\ UNCHANGED <<k, ml>>
Next == Read \/ Descend \/ Reach \/ Exhaust
Spec == Init /\ [][Next]_vars

ThrSeq == [i \in blk[1]..blk[2] |-> Excess(i)]
\* the base is the one place where the excess vanishes; absent exactly when there is none
Base == pc = "found" => Zeros(ThrSeq, prs, blk) = {<<ml, ml>>}
Absent == pc = "none" => ~Near \/ ~Usable(blk) \/ Zeros(ThrSeq, prs, blk) = {}
InBlock == pc = "found" => InBlk(prs, blk, ml)
\* with a positive threshold the base is below the near-surface bottle (when that is in the block)
BelowNear == pc = "found" /\ thr > 0 /\ bot \in blk[1]..blk[2] => RLt(R(prs[bot]), ml)
Inv == Base /\ Absent /\ InBlock /\ BelowNear
Emitted == pc \in {"found", "none"} =>
   Emit([s |-> sal, t |-> tmp, p |-> prs, ref |-> ref, thr |-> thr, bot |-> bot, ml |-> ml,
         tie |-> IF Near /\ Usable(blk) THEN Excess(blk[2]) = 0 \/ Excess(blk[1]) = 0 ELSE FALSE])
=============================================================================
