-------------------------------- MODULE Synth --------------------------------
(* The synthetic ocean's columns (C24): all water, then walls where a direction is
   not periodic, in either order.  Column <<i, j>>, longitude first.               *)
EXTENDS Util
CONSTANTS Shapes
VARIABLES dims, wrap, water, walls
vars == <<dims, wrap, water, walls>>
B == {TRUE, FALSE}
Init == /\ dims \in Shapes /\ wrap \in [1..2 -> B]
        /\ water = (0..(dims[1] - 1)) \X (0..(dims[2] - 1)) /\ walls = {}
Wall(d) == /\ ~wrap[d] /\ d \notin walls /\ walls' = walls \union {d}
           /\ water' = {c \in water : c[d] # 0} /\ UNCHANGED <<dims, wrap>>
Next == \E d \in 1..2 : Wall(d)
Spec == Init /\ [][Next]_vars
Done == \A d \in 1..2 : wrap[d] \/ d \in walls
Inv == /\ water \subseteq (0..(dims[1] - 1)) \X (0..(dims[2] - 1))
       /\ Done => Cardinality(water) = (IF wrap[1] THEN dims[1] ELSE dims[1] - 1) * (IF wrap[2] THEN dims[2] ELSE dims[2] - 1)
Emitted == Done => Emit([dims |-> dims, wrap |-> wrap, water |-> [i \in 1..dims[1] |-> [j \in 1..dims[2] |-> IF <<i - 1, j - 1>> \in water THEN 1 ELSE 0]]])
=============================================================================
