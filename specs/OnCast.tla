------------------------------- MODULE OnCast --------------------------------
(* A point asked for on one cast (C03): which pressures exist on a cast with missing
   data, and the salinity and temperature there.  This is what every surface shares:
   an initial surface given as pressures, the start of a trajectory, a pin.         *)
EXTENDS Cast
CONSTANTS NN, Gaps, Bottles, PMiss, Asks   \* Asks: pressures asked for, rationals; NaNI as <<NaNI, 1>>
VARIABLES sal, tmp, prs, ask, blk, pc, pt
vars == <<sal, tmp, prs, ask, blk, pc, pt>>
None == <<>>
Init == \E n \in NN : \E g \in [1..(n - 1) -> Gaps] : \E w \in [1..n -> Bottles] : \E miss \in PMiss :
          /\ sal = [i \in 1..n |-> w[i][1]] /\ tmp = [i \in 1..n |-> w[i][2]]
          /\ prs = [i \in 1..n |-> IF i \in miss THEN NaNI ELSE CumP(4, g, i)]
          /\ ask \in Asks /\ blk = <<1, 0>> /\ pc = "pick" /\ pt = None
FindBlock == pc = "pick" /\ blk' = CastBlock(sal, prs) /\ pc' = "place" /\ UNCHANGED <<sal, tmp, prs, ask, pt>>
Place == /\ pc = "place" /\ pc' = "done"
         /\ pt' = IF ask[1] # NaNI /\ InBlk(prs, blk, ask) THEN <<PLAt(sal, prs, blk, ask), PLAt(tmp, prs, blk, ask), ask>> ELSE None
         /\ UNCHANGED <<sal, tmp, prs, ask, blk>>
Spec == Init /\ [][FindBlock \/ Place]_vars
Done == pc = "done"
LandIsDry == Done /\ ~Usable(blk) => pt = None
Between(z, y, i) == (RLe(R(y[i]), z) /\ RLe(z, R(y[i + 1]))) \/ (RLe(R(y[i + 1]), z) /\ RLe(z, R(y[i])))
Bounded == Done /\ pt # None => LET i == Locate(prs, blk, ask) IN Between(pt[1], sal, i) /\ Between(pt[2], tmp, i)
HitsData == Done /\ pt # None => \A i \in blk[1]..blk[2] : R(prs[i]) = ask => pt[1] = R(sal[i]) /\ pt[2] = R(tmp[i])
Inv == LandIsDry /\ Bounded /\ HitsData
Emitted == Done => Emit([s |-> sal, t |-> tmp, p |-> prs, ask |-> ask, pt |-> pt])
=============================================================================
