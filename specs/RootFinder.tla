----------------------------- MODULE RootFinder -----------------------------
(* Bracketing search and bracketed root finding (property C12).

   f is the continuous piecewise linear function through (i, f[i]), i in 0..L.
   Widen   : from the clamped guess the interval [a, b] is widened outward, by
             steps of any size, until f changes sign over it
   Shrink  : any bracketed method (Brent's included): an interior point replaces
             the end at which f has the same sign                              *)
EXTENDS Util
CONSTANTS L, FVals, Guesses
VARIABLES f, g, a, b, pc
vars == <<f, g, a, b, pc>>
Dom == 0..L
Clamp(x) == Min2(Max2(x, 0), L)
Pos(x) == f[x] > 0

Init == /\ f \in [Dom -> FVals] /\ g \in Guesses /\ a = Clamp(g) /\ b = Clamp(g) /\ pc = "start"

Start == /\ pc = "start"
         /\ \/ f[0] = 0 /\ a' = 0 /\ b' = 0 /\ pc' = "bracket"
            \/ f[0] # 0 /\ f[L] = 0 /\ a' = L /\ b' = L /\ pc' = "bracket"
            \/ f[0] # 0 /\ f[L] # 0 /\ pc' = "widen" /\ UNCHANGED <<a, b>>
         /\ UNCHANGED <<f, g>>
Left == /\ pc = "widen" /\ a > 0 /\ Pos(a) = Pos(b)
        /\ a' \in 0..(a - 1) /\ UNCHANGED <<f, g, b, pc>>
Right == /\ pc = "widen" /\ b < L /\ Pos(a) = Pos(b)
         /\ b' \in (b + 1)..L /\ UNCHANGED <<f, g, a, pc>>
Found == pc = "widen" /\ Pos(a) # Pos(b) /\ pc' = "bracket" /\ UNCHANGED <<f, g, a, b>>
None  == /\ pc = "widen" /\ a = 0 /\ b = L /\ Pos(a) = Pos(b) /\ pc' = "none" /\ UNCHANGED <<f, g, a, b>>
Shrink == /\ pc = "bracket" /\ b - a > 1 /\ f[a] # 0 /\ f[b] # 0
          /\ \E c \in (a + 1)..(b - 1) :
               IF f[c] = 0 THEN a' = c /\ b' = c
               ELSE IF Pos(c) = Pos(a) THEN a' = c /\ b' = b ELSE a' = a /\ b' = c
          /\ UNCHANGED <<f, g, pc>>
Finish == /\ pc = "bracket" /\ (b - a <= 1 \/ f[a] = 0 \/ f[b] = 0) /\ pc' = "root" /\ UNCHANGED <<f, g, a, b>>

Next == Start \/ Left \/ Right \/ Found \/ None \/ Shrink \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

HasRoot(lo, hi) == f[lo] = 0 \/ f[hi] = 0 \/ \E i \in lo..(hi - 1) : f[i] * f[i + 1] <= 0
Inside == 0 <= a /\ a <= b /\ b <= L
ContainsGuess == pc = "widen" => a <= Clamp(g) /\ Clamp(g) <= b
TrueBracket == pc = "bracket" \/ pc = "root" => HasRoot(a, b)
Guaranteed == pc = "none" => (f[0] > 0) = (f[L] > 0) /\ Pos(Clamp(g)) = Pos(0)
Inv == Inside /\ ContainsGuess /\ TrueBracket /\ Guaranteed
Terminates == <>(pc \in {"root", "none"})

Emitted == pc = "start" => Emit([f |-> [i \in 1..(L + 1) |-> f[i - 1]], g |-> g])
=============================================================================
