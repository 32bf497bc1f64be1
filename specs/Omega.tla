-------------------------------- MODULE Omega --------------------------------
(* The omega-surface algorithm on a graph of water columns (C03-C07, C16).

   Toy equation of state rho = 1000 + s (1 + p/8) - t.  Column n has constant
   salinity s and temperature off - p between pressures lo and hi (lo > hi: land),
   so that neutral links, neutrality errors, the global solve and the vertical
   heave are all exact in rational arithmetic:
     link from bottle (sm, tm, pm) : p = ((sm - sn)(16 + pm) - 16 tm + 16 off) / (16 - (sm - sn))
     error on edge a -> b          : (1 + (pa + pb)/16)(sb - sa) - (tb - ta)
     heave by phi at fixed pressure: p' = p + phi

   One action per step of the algorithm: (re)start, drop the mixed layer, take
   the connected component of the pin, wet its perimeter cast by cast (casts of
   one pass in any order, each tried once), solve, heave, decide whether to stop. *)
EXTENDS Rat
CONSTANTS Nodes, Pin, Graphs, Types, TypeSets, Inits, Opts
\* Graphs  : set of sequences of edges <<a, b, w>> (w = 4 * face width / distance, an integer)
\* Types   : function from type index to [s, off, lo, hi, ml]  (ml = NaNI: no mixed layer)
\* TypeSets: set of functions (sequences) node -> type index
\* Inits   : set of initial surfaces: <<p>> (a scalar) or a sequence, one pressure per node (NaNI: none)
\* Opts    : set of records [start, stop, reps, imin, imax, tol, tolp2, stats]  (tol, tolp2 rationals; Zero = off;
\*           stats: accumulate the pressure-change statistics, whose squares may be too large for TLC otherwise)
VARIABLES g, ty, ini, op,            \* the call
          p, iter, pc,               \* surface (None or rational), iteration, control
          todo, nextq, seen, pass,   \* perimeter casts of this pass / of the next / considered already
          newly, phi, pold, hist, tie
call == <<g, ty, ini, op>>
vars == <<g, ty, ini, op, p, iter, pc, todo, nextq, seen, pass, newly, phi, pold, hist, tie>>

None == <<>>
C(n) == Types[ty[n]]
Land(n) == C(n).lo > C(n).hi
Temp(n, q) == RSub(R(C(n).off), q)
In(n, q) == ~Land(n) /\ RLe(R(C(n).lo), q) /\ RLe(q, R(C(n).hi))
Edge(q, n) == q # None /\ ~Land(n) /\ (q = R(C(n).lo) \/ q = R(C(n).hi) \/ (C(n).ml # NaNI /\ q = R(C(n).ml)))
Wet(q) == {n \in Nodes : q[n] # None}
EdgeIx == DOMAIN g
Nbrs(n) == {m \in Nodes : \E e \in EdgeIx : (g[e][1] = n /\ g[e][2] = m) \/ (g[e][2] = n /\ g[e][1] = m)} \ {n}

\* neutral link from the point of wet cast m to cast n
LinkAt(q, m, n) ==
  LET d == C(m).s - C(n).s
  IN RDiv(RAdd(RMul(R(d), RAdd(R(16), q[m])), RSub(R(16 * C(n).off), RMul(R(16), Temp(m, q[m])))), R(16 - d))
BelowMixed(n, z) == C(n).ml = NaNI \/ RLt(R(C(n).ml), z)
GoodLink(q, m, n) == q[m] # None /\ ~Land(n) /\ In(n, LinkAt(q, m, n)) /\ BelowMixed(n, LinkAt(q, m, n))
LinkTie(q, n) == \E m \in Nbrs(n) : q[m] # None /\ ~Land(n) /\ Edge(LinkAt(q, m, n), n)

RECURSIVE Reach(_, _)
Reach(X, W) == LET Y == X \union UNION {Nbrs(n) \intersect W : n \in X} IN IF Y = X THEN X ELSE Reach(Y, W)
Comp(q) == IF q[Pin] = None THEN {} ELSE Reach({Pin}, Wet(q))

PinP == IF Len(ini) = 1 THEN ini[1] ELSE ini[Pin]
Bare == [n \in Nodes |-> None]
Rec(q, nw) == [p |-> q, new |-> nw, phi |-> Zero, dmav |-> Zero, dms |-> Zero, dinf |-> Zero]

Init == /\ g \in Graphs /\ ty \in TypeSets /\ ini \in Inits /\ op \in Opts
        /\ p = Bare /\ iter = 0 /\ pc = "start" /\ todo = {} /\ nextq = {} /\ seen = {} /\ pass = 0
        /\ newly = 0 /\ phi = Bare /\ pold = Bare /\ hist = <<>> /\ tie = FALSE
NoWet == UNCHANGED <<todo, nextq, seen, pass>>

Start ==
  /\ pc = "start" /\ UNCHANGED <<call, iter, phi, pold, hist>>
  /\ IF PinP = NaNI \/ ~In(Pin, R(PinP))
     THEN pc' = "error" /\ UNCHANGED <<p, newly, tie>> /\ NoWet
     ELSE IF Len(ini) = 1
     THEN /\ p' = [Bare EXCEPT ![Pin] = R(PinP)] /\ tie' = Edge(R(PinP), Pin)
          /\ pc' = "component" /\ newly' = 0 /\ NoWet
     ELSE /\ p' = [n \in Nodes |-> IF ini[n] # NaNI /\ In(n, R(ini[n])) THEN R(ini[n]) ELSE None]
          /\ tie' = FALSE
          /\ pc' = "initial" /\ newly' = 0 /\ NoWet
\* record the surface before the first iteration
Initial == /\ pc = "initial" /\ hist' = <<Rec(p, newly)>> /\ pc' = "next"
           /\ UNCHANGED <<call, p, iter, newly, phi, pold, tie>> /\ NoWet

Iterate == /\ pc = "next" /\ iter < op.imax /\ iter' = iter + 1 /\ pc' = "unmix"
           /\ UNCHANGED <<call, p, newly, phi, pold, hist, tie>> /\ NoWet
InMixed(n) == n # Pin /\ p[n] # None /\ C(n).ml # NaNI /\ RLt(p[n], R(C(n).ml))
Unmix == /\ pc = "unmix" /\ pc' = "component" /\ newly' = 0
         /\ p' = IF iter > 1 THEN [n \in Nodes |-> IF InMixed(n) THEN None ELSE p[n]] ELSE p
         /\ UNCHANGED <<call, iter, phi, pold, hist, tie>> /\ NoWet
Window == iter = 0 \/ (op.start <= iter /\ iter <= op.stop)
Component ==
  /\ pc = "component"
  /\ LET X == Comp(p) IN
     /\ p' = [n \in Nodes |-> IF n \in X THEN p[n] ELSE None]
     /\ IF Window
        THEN /\ pc' = "wet" /\ pass' = 1
             /\ todo' = (UNION {Nbrs(n) : n \in X}) \ Wet(p) /\ nextq' = {}
             \* wet casts that were cut off are dropped; the code may or may not come back to them in this call
             /\ \/ seen' = X \union todo' \union (Wet(p) \ X)
                \/ (Wet(p) \ X) # {} /\ seen' = X \union todo'
        ELSE pc' = "solve" /\ NoWet
  /\ UNCHANGED <<call, iter, newly, phi, pold, hist, tie>>
Try(n) ==
  LET L == {m \in Nbrs(n) : GoodLink(p, m, n)} IN
  /\ todo' = todo \ {n} /\ tie' = (tie \/ LinkTie(p, n))
  /\ IF L = {} THEN UNCHANGED <<p, newly, nextq, seen>>
     ELSE /\ p' = [p EXCEPT ![n] = LET RECURSIVE S(_)
                                       S(M) == IF M = {} THEN Zero ELSE LET m == CHOOSE m \in M : TRUE IN RAdd(LinkAt(p, m, n), S(M \ {m}))
                                   IN Norm1(S(L), Cardinality(L))]
          /\ newly' = newly + 1
          /\ nextq' = nextq \union (Nbrs(n) \ seen) /\ seen' = seen \union Nbrs(n)
WetOne == /\ pc = "wet" /\ todo # {} /\ \E n \in todo : Try(n)
          /\ UNCHANGED <<call, iter, pc, pass, phi, pold, hist>>
WetPass == /\ pc = "wet" /\ todo = {}
           /\ IF nextq # {} /\ pass < op.reps
              THEN todo' = nextq /\ nextq' = {} /\ pass' = pass + 1 /\ pc' = pc /\ UNCHANGED seen
              ELSE pc' = (IF iter = 0 THEN "initial" ELSE "solve") /\ NoWet
           /\ UNCHANGED <<call, p, iter, newly, phi, pold, hist, tie>>

-----------------------------------------------------------------------------
\* the global problem: at each cast of the region, sum over edges of w (eps + phi_b - phi_a) = 0, phi = 0 at the pin
Eps(q, a, b) == RSub(RMul(RAdd(R(1), Norm1(RAdd(q[a], q[b]), 16)), R(C(b).s - C(a).s)), RSub(Temp(b, q[b]), Temp(a, q[a])))
WetEdges(q) == {e \in EdgeIx : q[g[e][1]] # None /\ q[g[e][2]] # None /\ g[e][1] # g[e][2]}
RECURSIVE SumR(_, _)
SumR(f, X) == IF X = {} THEN Zero ELSE LET x == CHOOSE x \in X : TRUE IN RAdd(f[x], SumR(f, X \ {x}))
At(q, a) == {e \in WetEdges(q) : g[e][1] = a \/ g[e][2] = a}
Other(e, a) == IF g[e][1] = a THEN g[e][2] ELSE g[e][1]
Div(q, a) == SumR([e \in At(q, a) |-> RMul(R(g[e][3]), Eps(q, a, Other(e, a)))], At(q, a))
Diag(q, a) == SumR([e \in At(q, a) |-> R(g[e][3])], At(q, a))
OffDiag(q, a, b) == LET X == {e \in At(q, a) : Other(e, a) = b} IN RNeg(SumR([e \in X |-> R(g[e][3])], X))
\* Gaussian elimination on a symmetric positive definite system A x = y over the unknowns U
RECURSIVE Elim(_, _, _)
Elim(U, A, y) ==
  IF U = {} THEN [n \in {} |-> Zero]
  ELSE LET u == CHOOSE u \in U : TRUE
           V == U \ {u}
           B == [n \in V |-> [m \in V |-> RSub(A[n][m], RDiv(RMul(A[n][u], A[u][m]), A[u][u]))]]
           z == [n \in V |-> RSub(y[n], RDiv(RMul(A[n][u], y[u]), A[u][u]))]
           x == Elim(V, B, z)
           xu == RDiv(RSub(y[u], SumR([m \in V |-> RMul(A[u][m], x[m])], V)), A[u][u])
       IN [n \in U |-> IF n = u THEN xu ELSE x[n]]
Global(q) == LET U == Wet(q) \ {Pin}
                 x == Elim(U, [a \in U |-> [b \in U |-> IF a = b THEN Diag(q, a) ELSE OffDiag(q, a, b)]], [a \in U |-> Div(q, a)])
             IN [n \in Nodes |-> IF n = Pin THEN Zero ELSE IF n \in U THEN x[n] ELSE None]
Solve == /\ pc = "solve" /\ phi' = Global(p) /\ pold' = p /\ pc' = "heave"
         /\ UNCHANGED <<call, p, iter, newly, hist, tie>> /\ NoWet
Moved(n) == IF phi[n] = None THEN None ELSE RAdd(p[n], phi[n])
Resting == Len(ini) > 1 /\ \A n \in Nodes : phi[n] # None => phi[n] = Zero /\ p[n] = R(ini[n])
Heave ==
  /\ pc = "heave" /\ pc' = "check"
  /\ p' = [n \in Nodes |-> IF n = Pin THEN p[n] ELSE IF phi[n] # None /\ In(n, Moved(n)) THEN Moved(n) ELSE None]
  \* a surface that has not moved at all is where it was given, exactly
  /\ tie' = (tie \/ (~Resting /\ \E n \in Nodes \ {Pin} : Edge(Moved(n), n)))
  /\ UNCHANGED <<call, iter, newly, phi, pold, hist>> /\ NoWet
Both == {n \in Nodes : p[n] # None /\ pold[n] # None}
MeanOver(f, X) == Norm1(SumR(f, X), Cardinality(X))
PhiMAV == MeanOver([n \in Wet(pold) |-> RAbs(phi[n])], Wet(pold))
DP(n) == RSub(p[n], pold[n])
DpMS == MeanOver([n \in Both |-> RMul(DP(n), DP(n))], Both)
DpMAV == MeanOver([n \in Both |-> RAbs(DP(n))], Both)
DpInf == LET X == {RAbs(DP(n)) : n \in Both} IN CHOOSE x \in X : \A y \in X : RLe(y, x)
Below(x, t) == t # Zero /\ RLt(x, t)
Converged == iter >= op.imin /\ (Below(PhiMAV, op.tol) \/ (op.stats /\ Below(DpMS, op.tolp2)))
Check == /\ pc = "check"
         /\ hist' = Append(hist, [p |-> p, new |-> newly, phi |-> PhiMAV, dmav |-> DpMAV, dms |-> IF op.stats THEN DpMS ELSE Zero, dinf |-> DpInf])
         /\ tie' = (tie \/ (op.tol # Zero /\ PhiMAV = op.tol) \/ (op.stats /\ op.tolp2 # Zero /\ DpMS = op.tolp2))
         /\ pc' = IF Converged THEN "done" ELSE "next"
         /\ UNCHANGED <<call, p, iter, newly, phi, pold>> /\ NoWet
Finish == pc = "next" /\ iter = op.imax /\ pc' = "done" /\ UNCHANGED <<call, p, iter, newly, phi, pold, hist, tie>> /\ NoWet
Next == Start \/ Initial \/ Iterate \/ Unmix \/ Component \/ WetOne \/ WetPass \/ Solve \/ Heave \/ Check \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* C04
Pinned == pc \notin {"start", "error"} => p[Pin] = R(PinP)
\* C03
OnCasts == \A n \in Nodes : p[n] # None => In(n, p[n])
\* C05: what is heaved is one connected patch; nothing in a mixed layer joins or survives
Connected == pc \in {"solve", "heave"} => LET q == IF pc = "solve" THEN p ELSE pold IN Reach({Pin}, Wet(q)) = Wet(q)
OnlyBelowMixed == pc = "solve" /\ iter > 1 => \A n \in Wet(p) : n = Pin \/ C(n).ml = NaNI \/ RLe(R(C(n).ml), p[n])
NoGrowth == [][pc = "component" /\ ~Window => Wet(p') \subseteq Wet(p)]_vars
GrowthOnlyByWetting == [][~(pc = "start") /\ ~(Wet(p') \subseteq Wet(p)) => pc = "wet" /\ Window /\
                           \A n \in Wet(p') \ Wet(p) : \E m \in Nbrs(n) : GoodLink(p, m, n)]_vars
\* when wetting is over, no cast next to the original patch was forgotten
Complete == pc = "wet" /\ todo = {} /\ op.reps >= Cardinality(Nodes) /\ nextq = {} =>
              \A n \in Nodes \ Wet(p) : Nbrs(n) \intersect Wet(p) # {} => n \in seen
\* C06: after the solve every cast balances
Balanced == pc = "heave" => \A a \in Wet(pold) :
   SumR([e \in At(pold, a) |-> LET b == Other(e, a) IN RMul(R(g[e][3]), RSub(RAdd(Eps(pold, a, b), phi[b]), phi[a]))], At(pold, a)) = Zero
\* on a region without cycles every link becomes neutral to first order: eps_ab + phi_b - phi_a = 0 edge by edge
Tree(q) == Cardinality({{g[e][1], g[e][2]} : e \in WetEdges(q)}) = Cardinality(Wet(q)) - 1
TreeNeutral == pc = "heave" /\ Tree(pold) => \A e \in WetEdges(pold) :
   RSub(RAdd(Eps(pold, g[e][1], g[e][2]), phi[g[e][2]]), phi[g[e][1]]) = Zero
\* C07
IterBounds == pc = "done" => /\ iter <= op.imax /\ Len(hist) = iter + 1
                             /\ (iter < op.imax => iter >= op.imin)
FirstStop == pc = "done" => \A k \in 2..(Len(hist) - 1) :
   k - 1 >= op.imin => ~Below(hist[k].phi, op.tol) /\ ~(op.stats /\ Below(hist[k].dms, op.tolp2))
Terminates == <>(pc \in {"done", "error"})
Inv == Pinned /\ OnCasts /\ Connected /\ OnlyBelowMixed /\ Complete /\ Balanced /\ TreeNeutral /\ IterBounds /\ FirstStop

Emitted == pc \in {"done", "error"} =>
  Emit([g |-> g, ty |-> ty, ini |-> ini, op |-> op, out |-> pc, tie |-> tie, hist |-> hist])
\* the surface as wetting leaves it in the first iteration (observable through the search itself)
EmittedWet == pc = "solve" /\ iter = 1 =>
  Emit([g |-> g, ty |-> ty, ini |-> ini, op |-> op, out |-> pc, tie |-> tie, hist |-> <<Rec(p, newly)>>])

-----------------------------------------------------------------------------
\* The other search: breadth first from the pin, wetting each dry cast through the first neutral link found.
\* `seen` holds the casts discovered; casts that are wet but never discovered keep their points.
StartB == /\ pc = "start" /\ pc' = "search" /\ UNCHANGED <<call, iter, phi, pold, hist, newly, todo, nextq, pass>>
          /\ p' = [n \in Nodes |-> IF ini[n] # NaNI /\ In(n, R(ini[n])) THEN R(ini[n]) ELSE None]
          /\ seen' = {n \in {Pin} : p'[n] # None} /\ tie' = FALSE
DiscoverB == /\ pc = "search" /\ \E m \in seen : \E n \in (Nbrs(m) \intersect Wet(p)) \ seen : seen' = seen \union {n}
             /\ UNCHANGED <<call, iter, pc, phi, pold, hist, newly, todo, nextq, pass, p, tie>>
WetB == /\ pc = "search" /\ \E m \in seen : \E n \in Nbrs(m) \ Wet(p) :
             GoodLink(p, m, n) /\ p' = [p EXCEPT ![n] = LinkAt(p, m, n)] /\ seen' = seen \union {n}
        /\ newly' = newly + 1 /\ UNCHANGED <<call, iter, pc, phi, pold, hist, todo, nextq, pass, tie>>
MoreB == \E m \in seen : \E n \in Nbrs(m) : (p[n] # None /\ n \notin seen) \/ (p[n] = None /\ GoodLink(p, m, n))
EndB == /\ pc = "search" /\ ~MoreB /\ pc' = "done" /\ tie' = (\E n \in Nodes \ Wet(p) : LinkTie(p, n))
        /\ UNCHANGED <<call, iter, phi, pold, hist, newly, todo, nextq, pass, p, seen>>
SpecB == Init /\ [][StartB \/ DiscoverB \/ WetB \/ EndB]_vars
InvB == /\ OnCasts /\ seen \subseteq Wet(p)
        /\ (pc = "done" /\ seen # {} => Reach({Pin}, seen) = seen /\ \A n \in Nodes \ Wet(p) : \A m \in seen : n \in Nbrs(m) => ~GoodLink(p, m, n))
EmittedB == pc = "done" => Emit([g |-> g, ty |-> ty, ini |-> ini, op |-> op, out |-> pc, tie |-> tie, hist |-> <<Rec(p, newly)>>,
                                 seen |-> [n \in Nodes |-> n \in seen]])
=============================================================================
