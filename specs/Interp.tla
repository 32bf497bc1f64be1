------------------------------- MODULE Interp -------------------------------
(* One-dimensional interpolation (property C11).

   Behaviour:  pick data (with NaN's) -> FindBlock -> Slopes -> one Eval per
   site.  The interpolant is defined on the first unbroken block k..K of
   positions at which both X and Y are valid, and nowhere else.              *)
EXTENDS Rat
CONSTANTS NN,        \* numbers of data sites explored
          Gaps,      \* spacings of X (multiples of 4, so quarter points are integers)
          YVals,     \* data values (NaNI = missing)
          XMaxNaN    \* how many X's may be missing
VARIABLES x, y, blk, slope, pc
vars == <<x, y, blk, slope, pc>>

RECURSIVE Cum(_, _)
Cum(g, i) == IF i = 1 THEN -4 ELSE Cum(g, i - 1) + g[i - 1]

Init == \E n \in NN : \E g \in [1..(n - 1) -> Gaps] : \E miss \in SUBSET (1..n) :
          /\ Cardinality(miss) <= XMaxNaN
          /\ x = [i \in 1..n |-> IF i \in miss THEN NaNI ELSE Cum(g, i)]
          /\ y \in [1..n -> YVals]
          /\ blk = <<0, 0>> /\ slope = <<>> /\ pc = "data"

Valid(i) == x[i] # NaNI /\ y[i] # NaNI
\* <<k, K>>: positions k..K are the first unbroken block (k > K if there is none)
Block == IF \E i \in DOMAIN x : Valid(i)
         THEN LET k == CHOOSE i \in DOMAIN x : Valid(i) /\ \A j \in 1..(i - 1) : ~Valid(j)
                  K == CHOOSE i \in k..Len(x) : /\ \A j \in k..i : Valid(j)
                                                /\ (i = Len(x) \/ ~Valid(i + 1))
              IN <<k, K>>
         ELSE <<1, 0>>
FindBlock == pc = "data" /\ blk' = Block /\ pc' = "block" /\ UNCHANGED <<x, y, slope>>

h(i) == R(x[i + 1] - x[i])
dl(i) == RDiv(R(y[i + 1] - y[i]), h(i))
\* shape-preserving end slope: interval i is at the end, j is its neighbour
EndSlope(hi, hj, di, dj) ==
   LET d == RDiv(RSub(RMul(RAdd(RAdd(hi, hi), hj), di), RMul(hi, dj)), RAdd(hi, hj))
   IN IF RSgn(d) # RSgn(di) THEN Zero
      ELSE IF RSgn(di) # RSgn(dj) /\ RLt(RMul(R(3), RAbs(di)), RAbs(d)) THEN RMul(R(3), di)
      ELSE d
MidSlope(i) == IF RSgn(dl(i - 1)) * RSgn(dl(i)) > 0
               THEN LET w1 == RAdd(h(i - 1), RMul(R(2), h(i)))
                        w2 == RAdd(RMul(R(2), h(i - 1)), h(i))
                    IN RDiv(RAdd(w1, w2), RAdd(RDiv(w1, dl(i - 1)), RDiv(w2, dl(i))))
               ELSE Zero
SlopeAt(i) == LET k == blk[1] K == blk[2] IN
   IF K - k = 1 THEN dl(k)
   ELSE IF i = k THEN EndSlope(h(k), h(k + 1), dl(k), dl(k + 1))
   ELSE IF i = K THEN EndSlope(h(K - 1), h(K - 2), dl(K - 1), dl(K - 2))
   ELSE MidSlope(i)
Slopes == /\ pc = "block"
          /\ slope' = IF blk[2] - blk[1] >= 1 THEN [i \in blk[1]..blk[2] |-> SlopeAt(i)] ELSE <<>>
          /\ pc' = "ready" /\ UNCHANGED <<x, y, blk>>

\* pieces: polynomial coefficients of interval i in powers of (x - x[i]), highest first
PchipPiece(i) ==
   LET a == RDiv(RSub(dl(i), slope[i]), h(i))
       b == RDiv(RSub(slope[i + 1], dl(i)), h(i))
   IN <<RDiv(RSub(b, a), h(i)), RSub(RMul(R(2), a), b), slope[i], R(y[i])>>
LinPiece(i) == <<dl(i), R(y[i])>>

RECURSIVE Horner(_, _, _)
Horner(c, u, acc) == IF c = <<>> THEN acc ELSE Horner(Tail(c), u, RAdd(RMul(acc, u), Head(c)))
\* coefficients of the derivative
Deriv(c) == IF Len(c) = 1 THEN <<Zero>>
            ELSE [j \in 1..(Len(c) - 1) |-> RMul(R(Len(c) - j), c[j])]
RECURSIVE DerivN(_, _)
DerivN(c, d) == IF d = 0 THEN c ELSE DerivN(Deriv(c), d - 1)

InBlock(s) == /\ s # NaNI /\ blk[2] - blk[1] >= 1 /\ x[blk[1]] <= s /\ s <= x[blk[2]]
Piece(s) == CHOOSE i \in blk[1]..(blk[2] - 1) :       \* x[i] < s <= x[i+1], or s the first datum
               (x[i] < s \/ (i = blk[1] /\ x[i] <= s)) /\ s <= x[i + 1]
NaNR == <<NaNI, 1>>
Lin(s, d) == IF InBlock(s) THEN LET i == Piece(s) IN Horner(DerivN(LinPiece(i), d), R(s - x[i]), Zero) ELSE NaNR
Pch(s, d) == IF InBlock(s) THEN LET i == Piece(s) IN Horner(DerivN(PchipPiece(i), d), R(s - x[i]), Zero) ELSE NaNR

Finite == {i \in DOMAIN x : x[i] # NaNI}
Sites == {NaNI, -5, -4 + Len(x) * 12 + 1} \union {x[i] : i \in Finite}
         \union UNION {{x[i] + (x[i + 1] - x[i]) \div 4, (x[i] + x[i + 1]) \div 2} :
                       i \in {j \in Finite : j + 1 \in Finite}}
SiteSeq == LET RECURSIVE Srt(_)
               Srt(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b
                                                  IN <<m>> \o Srt(S \ {m})
           IN Srt(Sites)

Done == pc = "ready" /\ pc' = "done" /\ UNCHANGED <<x, y, blk, slope>>
Next == FindBlock \/ Slopes \/ Done
Spec == Init /\ [][Next]_vars

\* ---- properties ---------------------------------------------------------------
Ready == pc = "done"
HitsData == Ready => \A i \in blk[1]..blk[2] :
               blk[2] > blk[1] => Lin(x[i], 0) = R(y[i]) /\ Pch(x[i], 0) = R(y[i])
NoExtrapolation == Ready => \A s \in Sites : (Lin(s, 0) = NaNR) = ~InBlock(s) /\ (Pch(s, 0) = NaNR) = ~InBlock(s)
ShapePreserved == Ready => \A s \in Sites : InBlock(s) =>
   LET i == Piece(s)  lo == R(Min2(y[i], y[i + 1]))  hi == R(Max2(y[i], y[i + 1]))
   IN RLe(lo, Pch(s, 0)) /\ RLe(Pch(s, 0), hi) /\ RLe(lo, Lin(s, 0)) /\ RLe(Lin(s, 0), hi)
TwoPointsLinear == Ready /\ blk[2] - blk[1] = 1 => \A s \in Sites : Lin(s, 0) = Pch(s, 0)
C1Smooth == Ready => \A i \in (blk[1] + 1)..(blk[2] - 1) :   \* continuous first derivative
               Pch(x[i], 1) = slope[i]
Inv == HitsData /\ NoExtrapolation /\ ShapePreserved /\ TwoPointsLinear /\ C1Smooth

Emitted == Ready =>
   Emit([x |-> x, y |-> y, k |-> blk[1], kk |-> blk[2], sites |-> SiteSeq,
         lin |-> [i \in 1..Len(SiteSeq) |-> Lin(SiteSeq[i], 0)],
         pch |-> [i \in 1..Len(SiteSeq) |-> Pch(SiteSeq[i], 0)],
         lp  |-> IF blk[2] > blk[1] THEN [i \in 1..(blk[2] - blk[1]) |-> LinPiece(i + blk[1] - 1)] ELSE <<>>,
         pp  |-> IF blk[2] > blk[1] THEN [i \in 1..(blk[2] - blk[1]) |-> PchipPiece(i + blk[1] - 1)] ELSE <<>>])
=============================================================================
