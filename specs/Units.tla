-------------------------------- MODULE Units --------------------------------
(* Units and datums (C25).

   Salinity, temperature and pressure are given on scales; so are densities, and
   lengths between casts.  Rewriting the ocean means moving one of these scales:
   another unit (a factor) or another zero (a shift), or, for what the equation of
   state returns, its reciprocal (density or specific volume).  A state is the
   accumulated change of every scale: affine maps <<k, c>> (x -> k x + c) for S, T
   and p, a factor l for lengths, and for densities the matrix <<a, b, c, d>> of
   rho -> (a rho + b) / (c rho + d).

   Every argument and answer of a calculation has a kind, and a kind says how a
   value is rewritten; the rewritten call must give the rewritten answer.  What a
   calculation may know of the equation of state limits the changes it commutes
   with: one that asks only which of two densities is greater ("order") commutes
   with all of them; one that adds and compares density differences ("affine") with
   factors and shifts; the mixed layer reads densities out of a reciprocal
   ("reading").                                                               *)
EXTENDS Rat
CONSTANTS Calcs, Depth, Factors, PFactors, Shifts, PShifts, RShifts, LFactors
VARIABLES calc, word, u
vars == <<calc, word, u>>

\* --- affine maps and the matrices of densities ------------------------------
Aff(k, c) == <<k, c>>
Id == Aff(R(1), Zero)
AThen(f, g) == <<RMul(g[1], f[1]), RAdd(RMul(g[1], f[2]), g[2])>>       \* g after f
AInv(f) == <<RInv(f[1]), RNeg(RDiv(f[2], f[1]))>>
RECURSIVE GcdAll(_)
GcdAll(s) == IF s = <<>> THEN 0 ELSE Gcd(Abs(Head(s)), GcdAll(Tail(s)))
\* a matrix stands for its multiples; its determinant tells whether the order of densities is kept
MNorm(m) == LET g == GcdAll(m)
                s == IF m[4] # 0 THEN Sgn(m[4]) ELSE Sgn(m[3])
            IN [i \in 1..4 |-> s * (m[i] \div g)]
MThen(f, g) == MNorm(<<g[1] * f[1] + g[2] * f[3], g[1] * f[2] + g[2] * f[4], g[3] * f[1] + g[4] * f[3], g[3] * f[2] + g[4] * f[4]>>)
MId == <<1, 0, 0, 1>>
MInv(m) == MNorm(<<m[4], -m[2], -m[3], m[1]>>)
Det(m) == m[1] * m[4] - m[2] * m[3]
Affine(m) == m[3] = 0
Recip(m) == m[1] = 0                \* the reciprocal of an affine map
MApply(m, x) == RDiv(RAdd(RMul(R(m[1]), x), R(m[2])), RAdd(RMul(R(m[3]), x), R(m[4])))

\* --- changes of one scale ---------------------------------------------------
Neutral == [S |-> Id, T |-> Id, p |-> Id, l |-> R(1), d |-> MId]
Gens == [scale : {"S", "T"}, op : {"unit"}, by : Factors] \cup [scale : {"p"}, op : {"unit"}, by : PFactors] \cup [scale : {"S", "T"}, op : {"zero"}, by : Shifts] \cup [scale : {"p"}, op : {"zero"}, by : PShifts]
   \cup [scale : {"d"}, op : {"unit"}, by : Factors] \cup [scale : {"d"}, op : {"zero"}, by : RShifts] \cup {[scale |-> "d", op |-> "recip", by |-> R(1)]}
   \cup [scale : {"l"}, op : {"unit"}, by : LFactors]
Undo(g) == CASE g.op = "unit" -> [g EXCEPT !.by = RInv(@)]
             [] g.op = "zero" -> [g EXCEPT !.by = RNeg(@)]
             [] g.op = "recip" -> g
MOf(g) == CASE g.op = "unit" -> <<g.by[1], 0, 0, g.by[2]>>
            [] g.op = "zero" -> <<g.by[2], g.by[1], 0, g.by[2]>>
            [] g.op = "recip" -> <<0, 1, 1, 0>>
Apply(v, g) == CASE g.scale \in {"S", "T", "p"} -> [v EXCEPT ![g.scale] = AThen(@, IF g.op = "unit" THEN Aff(g.by, Zero) ELSE Aff(R(1), g.by))]
                 [] g.scale = "l" -> [v EXCEPT !.l = RMul(@, g.by)]
                 [] g.scale = "d" -> [v EXCEPT !.d = MThen(@, MOf(g))]

\* --- what calculations commute with -----------------------------------------
Knows == [potential |-> "order", trajectory |-> "order", link |-> "order",
          anomaly |-> "affine", omega |-> "affine", veronis |-> "affine", norms |-> "affine", unstable |-> "affine", mixed |-> "reading"]
\* the samples of density that are rewritten: all must stay on one side of a pole, and of one sign where readings need it
Low == R(990)
High == R(1070)
Whole(m) == LET q(x) == RSgn(RAdd(RMul(R(m[3]), x), R(m[4]))) IN q(Low) # 0 /\ q(Low) = q(High)
\* the mixed layer takes values above 1 for densities, below for their reciprocals
Reads(m) == \/ Affine(m) /\ Det(m) > 0 /\ RLt(R(2), MApply(m, Low))
            \/ Recip(m) /\ RLt(MApply(m, Low), Norm(1, 2)) /\ RLt(Zero, MApply(m, Low)) /\ RLt(Zero, MApply(m, High)) /\ RLt(MApply(m, High), MApply(m, Low))
Commutes(c, m) == Whole(m) /\ CASE Knows[c] = "order" -> TRUE
                                [] Knows[c] = "affine" -> Affine(m)
                                [] Knows[c] = "reading" -> Reads(m)

\* --- kinds ------------------------------------------------------------------
\* the affine map that rewrites a value of the kind
Factor(k) == Aff(k, Zero)
MSlope(m) == Norm(m[1], m[4])                       \* of an affine one
\* what density differences read from the equation of state are multiplied by
Reading(m) == IF Affine(m) THEN MSlope(m) ELSE Norm(m[3], m[2])
Kinds == {"S", "T", "p", "dp", "length", "sequence"} \cup (IF Affine(u.d) THEN {"density", "ddensity", "ddensity/length"} ELSE {}) \cup (IF Reads(u.d) THEN {"reading"} ELSE {})
Conv(kind) == CASE kind = "S" -> u.S
                [] kind = "T" -> u.T
                [] kind = "p" -> u.p
                [] kind = "dp" -> Factor(u.p[1])
                [] kind = "length" -> Factor(u.l)
                [] kind = "density" -> Aff(MSlope(u.d), Norm(u.d[2], u.d[4]))
                [] kind = "ddensity" -> Factor(MSlope(u.d))
                [] kind = "ddensity/length" -> Factor(RDiv(MSlope(u.d), u.l))
                [] kind = "reading" -> Factor(Reading(u.d))
                [] kind = "sequence" -> Id
Convs == [k \in Kinds |-> Conv(k)]

Init == /\ calc \in Calcs /\ word = <<>> /\ u = Neutral
\* pressure has one unit at a time, and another zero drowns all but the simplest reciprocal in rounding
Allowed(g) == /\ g.scale = "p" /\ g.op = "unit" => \A i \in 1..Len(word) : word[i].scale # "p" \/ word[i].op # "unit"
              /\ g.scale = "d" /\ g.op = "zero" /\ ~Affine(u.d) => u.d = <<0, 1, 1, 0>> /\ Abs(g.by[1]) < 100
Next == /\ Len(word) < Depth /\ \E g \in Gens : Allowed(g) /\ word' = Append(word, g) /\ u' = Apply(u, g)
        /\ Whole(u'.d) /\ UNCHANGED calc
Spec == Init /\ [][Next]_vars

\* --- what is true of units --------------------------------------------------
RECURSIVE Fold(_, _)
Fold(v, w) == IF w = <<>> THEN v ELSE Fold(Apply(v, Head(w)), Tail(w))
Rev(w) == [i \in 1..Len(w) |-> Undo(w[Len(w) + 1 - i])]
Accumulated == u = Fold(Neutral, word)
Reversible == Fold(u, Rev(word)) = Neutral
Invertible == AThen(u.S, AInv(u.S)) = Id /\ AThen(u.p, AInv(u.p)) = Id /\ MThen(u.d, MInv(u.d)) = MId /\ Det(u.d) # 0
\* scales are independent: changes of different scales commute, and a difference does not see a shift
Independent == \A i \in 1..(Len(word) - 1) : word[i].scale # word[i + 1].scale =>
                  Fold(Neutral, [j \in 1..Len(word) |-> IF j = i THEN word[i + 1] ELSE IF j = i + 1 THEN word[i] ELSE word[j]]) = u
Differences == /\ \A g \in Gens : g.op = "zero" /\ g.scale \in {"S", "T", "p"} => Apply(u, g).p[1] = u.p[1] /\ Apply(u, g).S[1] = u.S[1]
               /\ Affine(u.d) => RSub(MApply(u.d, High), MApply(u.d, Low)) = RMul(MSlope(u.d), RSub(High, Low))
\* a reading of a reciprocal is a reading of the density
Readings == Reads(u.d) => LET m == u.d IN
               IF Affine(m) THEN RSub(MApply(m, High), MApply(m, Low)) = RMul(Reading(m), RSub(High, Low))
               ELSE RSub(RInv(MApply(m, High)), RInv(MApply(m, Low))) = RMul(Reading(m), RSub(High, Low))
\* two densities are equal after the change exactly when they were, and the order is kept or reversed throughout
Order == RSgn(RSub(MApply(u.d, High), MApply(u.d, Low))) = Sgn(Det(u.d))
Inv == Accumulated /\ Reversible /\ Invertible /\ Independent /\ Differences /\ Readings /\ Order
Emitted == (Len(word) > 0 /\ Commutes(calc, u.d)) =>
              Emit([calc |-> calc, word |-> [i \in 1..Len(word) |-> <<word[i].scale, word[i].op, word[i].by>>], S |-> u.S, T |-> u.T, p |-> u.p, d |-> u.d, conv |-> Convs])
=============================================================================
