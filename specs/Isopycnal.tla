------------------------------ MODULE Isopycnal ------------------------------
(* Potential density and anomaly surfaces in one cast (C01, C03; also the
   vertical search shared by every surface).

   Toy equation of state:  rho(s, t, p) = 1000 + s (1 + p/8) - t.
   F = 8 * (property of the cast at its data) is an integer:
     potential : 8 (S - T) + S ref          (at reference pressure ref)
     anomaly   : 8 ((S - S0) - (T - T0)) + (S - S0) P   (S constant, so F is linear in P)

   Behaviour: Pick -> FindBlock -> Search (is there a sign change?) -> Solve.  *)
EXTENDS Cast
CONSTANTS Kind,     \* "potential" or "anomaly"
          NN, Gaps, Bottles, PMiss, Refs, Isos
VARIABLES sal, tmp, prs, ref, iso, blk, pc, ans
vars == <<sal, tmp, prs, ref, iso, blk, pc, ans>>

Init == \E n \in NN : \E g \in [1..(n - 1) -> Gaps] : \E w \in [1..n -> Bottles] : \E miss \in PMiss :
          /\ sal = [i \in 1..n |-> w[i][1]] /\ tmp = [i \in 1..n |-> w[i][2]]
          /\ prs = [i \in 1..n |-> IF i \in miss THEN NaNI ELSE CumP(4, g, i)]
          /\ ref \in Refs /\ iso \in Isos
          /\ blk = <<1, 0>> /\ pc = "pick" /\ ans = {}
FindBlock == pc = "pick" /\ blk' = CastBlock(sal, prs) /\ pc' = "search" /\ UNCHANGED <<sal, tmp, prs, ref, iso, ans>>

Val(i) == IF Kind = "potential" THEN 8 * (sal[i] - tmp[i]) + sal[i] * ref[1] - iso
          ELSE 8 * ((sal[i] - ref[1]) - (tmp[i] - ref[2])) + (sal[i] - ref[1]) * prs[i] - iso
V == [i \in blk[1]..blk[2] |-> Val(i)]

\* every outcome an expanding search followed by a bracketed solve can produce
Search == /\ pc = "search" /\ pc' = "done"
          /\ \/ ~Usable(blk) /\ ans' = {}
             \/ Usable(blk) /\ Zeros(V, prs, blk) # {} /\ \E z \in Zeros(V, prs, blk) : ans' = {z}
             \/ Usable(blk) /\ ~EndsBracket(V, blk) /\ ans' = {}
          /\ UNCHANGED <<sal, tmp, prs, ref, iso, blk>>
Next == FindBlock \/ Search
Spec == Init /\ [][Next]_vars

Done == pc = "done"
OnIsovalue == Done /\ ans # {} => \A z \in ans : z \in Zeros(V, prs, blk)
InBlock == Done /\ ans # {} => \A z \in ans : RLe(R(prs[blk[1]]), z[1]) /\ RLe(z[2], R(prs[blk[2]]))
PresentIfBracketed == Done /\ ans = {} => ~(Usable(blk) /\ EndsBracket(V, blk))
AbsentIfNowhere == Done /\ (~Usable(blk) \/ Zeros(V, prs, blk) = {}) => ans = {}
EndsImplyRoot == Done /\ Usable(blk) /\ EndsBracket(V, blk) => Zeros(V, prs, blk) # {}
Inv == OnIsovalue /\ InBlock /\ PresentIfBracketed /\ AbsentIfNowhere /\ EndsImplyRoot

\* emitted once per input, with everything the search may answer
Emitted == pc = "search" =>
  Emit([s |-> sal, t |-> tmp, p |-> prs, ref |-> ref, iso |-> iso, k |-> blk[1], kk |-> blk[2],
        must |-> Usable(blk) /\ EndsBracket(V, blk),
        zeros |-> IF Usable(blk) THEN SetToSeqR(Zeros(V, prs, blk)) ELSE <<>>])
=============================================================================
