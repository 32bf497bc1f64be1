------------------------------ MODULE RootTrace ------------------------------
(* Recorded calls of the root finder judged against the outcomes RootFinder.tla
   allows.  Lengths are fixed point (1000000 per unit).

   bounds: A, B, g, a, b, one, rho; sA, sB, sg, sa, sb the signs of f there
          one: f has one root in (A, B), at rho thousandths of the room on its side of the guess
   brent : A, B, r, tol; sA, sB; fn = nodes of the piecewise linear f (at 0..L)
   smooth: as brent, for a function whose only root is at z                      *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
U == 1000000
VARIABLE l

Le(x, y) == x <= y + 1            \* fixed point rounding
Clamp(x, A, B) == Min2(Max2(x, A), B)

Close(e) ==
  LET g == Clamp(e.g, e.A, e.B)
      K(x) == x \div 1000                      \* 32-bit arithmetic: thousandths are enough
      m == 3 * Max2(e.rho, 50)
  IN /\ K(e.b - g) * 1000 <= m * K(e.B - g) + 3000
     /\ K(g - e.a) * 1000 <= m * K(g - e.A) + 3000
BoundsClauses(e) ==
  {c \in {"Terminates"} : e.stuck}
  \union (IF e.stuck THEN {} ELSE
  IF e.a = NaNI \/ e.b = NaNI
  THEN {c \in {"BothNaN"} : ~(e.a = NaNI /\ e.b = NaNI)}
       \union {c \in {"FoundWhenSignsDiffer"} : e.sA = 0 \/ e.sB = 0 \/ (e.sA > 0) # (e.sB > 0) \/ (e.sg > 0) # (e.sA > 0)}
  ELSE {c \in {"InsideBounds"} : ~(Le(e.A, e.a) /\ Le(e.a, e.b) /\ Le(e.b, e.B))}
       \union {c \in {"SignChange"} : ~((e.sa = 0 /\ e.sb = 0) \/ (e.sa > 0) # (e.sb > 0) \/ e.sa = 0 \/ e.sb = 0)}
       \union {c \in {"ContainsGuess"} :
                 ~(\/ (Le(e.a, Clamp(e.g, e.A, e.B)) /\ Le(Clamp(e.g, e.A, e.B), e.b))
                   \/ (e.a = e.b /\ e.sa = 0 /\ (e.a = e.A \/ e.a = e.B)))}
       \* the search widens outward: for a function with one root the bracket reaches no
       \* more than a few times further than the root, on the scale of the room on either side
       \union {c \in {"CloseToGuess"} : e.one /\ e.sA * e.sB < 0 /\ ~Close(e)}
       \union {c \in {"ZeroAtBound"} : (e.sA = 0 \/ e.sB = 0) /\ ~(e.a = e.b /\ e.sa = 0)})

\* U * f(x / U) for the piecewise linear f through the nodes
At(fn, x) == LET n == Len(fn) - 1
                 i == Min2(x \div U, n - 1)
             IN fn[i + 1] * U + (fn[i + 2] - fn[i + 1]) * (x - i * U)
ZeroNear(fn, lo, hi) ==
   LET n == Len(fn) - 1
       x0 == Max2(lo, 0)  x1 == Min2(hi, n * U)
       ns == {i \in 0..n : x0 <= i * U /\ i * U <= x1}
       vs == {At(fn, x0), At(fn, x1)} \union {fn[i + 1] * U : i \in ns}
   IN (\E v \in vs : v >= 0) /\ (\E v \in vs : v <= 0)

BrentClauses(e) ==
  {c \in {"Terminates"} : e.stuck}
  \union (IF e.stuck THEN {} ELSE
  IF e.A = NaNI \/ e.B = NaNI \/ e.A > e.B \/ e.sA * e.sB > 0
  THEN {c \in {"NaNWithoutBracket"} : e.r # NaNI}
  ELSE {c \in {"FindsRoot"} : e.r = NaNI}
       \union (IF e.r = NaNI THEN {} ELSE
          {c \in {"InsideBracket"} : ~(Le(e.A, e.r) /\ Le(e.r, e.B))}
          \union {c \in {"NearSignChange"} :
               ~(IF e.kind = "smooth" THEN Abs(e.r - e.z) <= 2 * e.tol + 2
                 ELSE ZeroNear(e.fn, e.r - 2 * e.tol - 2, e.r + 2 * e.tol + 2))}))

Clauses(e) == IF e.kind = "bounds" THEN BoundsClauses(e) ELSE BrentClauses(e)
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
