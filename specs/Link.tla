-------------------------------- MODULE Link --------------------------------
(* One neutral link from a bottle to a cast (C09), over every small cast with
   missing data.  Same toy equation of state and residual as Neutral.tla, with
   integer bottles so that residuals are integers.                            *)
EXTENDS Cast
CONSTANTS NN, Gaps, Temps, Sals, PMiss, Bots      \* Bots: bottles <<s, t, p>>
VARIABLES sc, tmp, prs, bot, blk, pc, ans
vars == <<sc, tmp, prs, bot, blk, pc, ans>>
Init == \E n \in NN : \E g \in [1..(n - 1) -> Gaps] : \E miss \in PMiss :
          /\ tmp \in [1..n -> Temps \union {NaNI}] /\ sc \in Sals
          /\ prs = [i \in 1..n |-> IF i \in miss THEN NaNI ELSE CumP(4, g, i)]
          /\ bot \in Bots /\ blk = <<1, 0>> /\ pc = "pick" /\ ans = {}
FindBlock == pc = "pick" /\ blk' = CastBlock(tmp, prs) /\ pc' = "search" /\ UNCHANGED <<sc, tmp, prs, bot, ans>>
V == [i \in blk[1]..blk[2] |-> (bot[1] - sc) * (16 + prs[i] + bot[3]) - 16 * bot[2] + 16 * tmp[i]]
Search == /\ pc = "search" /\ pc' = "done"
          /\ \/ ~Usable(blk) /\ ans' = {}
             \/ Usable(blk) /\ \E z \in Zeros(V, prs, blk) : ans' = {z}
             \/ Usable(blk) /\ ~EndsBracket(V, blk) /\ ans' = {}
          /\ UNCHANGED <<sc, tmp, prs, bot, blk>>
Next == FindBlock \/ Search
Spec == Init /\ [][Next]_vars
Inv == pc = "done" =>
        /\ (ans = {} => ~(Usable(blk) /\ EndsBracket(V, blk)))
        /\ (~Usable(blk) => ans = {})
        /\ (\A z \in ans : RLe(R(prs[blk[1]]), z[1]) /\ RLe(z[2], R(prs[blk[2]])))
Emitted == pc = "search" =>
  Emit([s |-> sc, t |-> tmp, p |-> prs, b |-> bot, must |-> Usable(blk) /\ EndsBracket(V, blk),
        zeros |-> IF Usable(blk) THEN SetToSeqR(Zeros(V, prs, blk)) ELSE <<>>])
=============================================================================
