------------------------------- MODULE Relabel -------------------------------
(* Presentations of one ocean (C16).

   A presentation numbers the casts, lists the edges in some order and direction,
   and may hold casts that have nothing to do with the surface: land next to it,
   and water that is not connected to the pinning cast.  Starting from a given
   presentation, the actions renumber, reorder, reverse and add.  `back` says
   which original cast each present cast is (0: added).

   Whatever the presentation, the omega surface (two iterations without wetting,
   written here as a function of the presentation; columns and equation of state
   as in Omega.tla) is the renumbered original surface, and added casts are dry.  *)
EXTENDS Rat
CONSTANTS Types, Starts, Steps, LandType, WaterType
\* Starts: set of [g, ty, ini, pin]
VARIABLES g, ty, ini, pin, back, zero, left, what
vars == <<g, ty, ini, pin, back, zero, left, what>>
None == <<>>

\* ----- the surface as a function of a presentation c = [g, ty, ini, pin]
Col(c, n) == Types[c.ty[n]]
In(c, n, q) == Col(c, n).lo <= Col(c, n).hi /\ RLe(R(Col(c, n).lo), q) /\ RLe(q, R(Col(c, n).hi))
First(c) == [n \in DOMAIN c.ty |-> IF c.ini[n] # NaNI /\ In(c, n, R(c.ini[n])) THEN R(c.ini[n]) ELSE None]
Ends(c, e) == {c.g[e][1], c.g[e][2]}
RECURSIVE Grow(_, _, _)
Grow(c, q, X) == LET Y == X \union {n \in DOMAIN c.ty : q[n] # None /\ \E e \in DOMAIN c.g : n \in Ends(c, e) /\ Ends(c, e) \intersect X # {}}
                 IN IF Y = X THEN X ELSE Grow(c, q, Y)
Temp(c, n, q) == RSub(R(Col(c, n).off), q[n])
Eps(c, q, a, b) == RSub(RMul(RAdd(R(1), Norm1(RAdd(q[a], q[b]), 16)), R(Col(c, b).s - Col(c, a).s)), RSub(Temp(c, b, q), Temp(c, a, q)))
RECURSIVE SumR(_, _)
SumR(f, X) == IF X = {} THEN Zero ELSE LET x == CHOOSE x \in X : TRUE IN RAdd(f[x], SumR(f, X \ {x}))
RECURSIVE Elim(_, _, _)
Elim(U, A, y) ==
  IF U = {} THEN [n \in {} |-> Zero]
  ELSE LET u == CHOOSE u \in U : TRUE
           V == U \ {u}
           B == [n \in V |-> [m \in V |-> RSub(A[n][m], RDiv(RMul(A[n][u], A[u][m]), A[u][u]))]]
           z == [n \in V |-> RSub(y[n], RDiv(RMul(A[n][u], y[u]), A[u][u]))]
           x == Elim(V, B, z)
       IN [n \in U |-> IF n = u THEN RDiv(RSub(y[u], SumR([m \in V |-> RMul(A[u][m], x[m])], V)), A[u][u]) ELSE x[n]]
Step(c, q) ==
  LET X == Grow(c, q, {c.pin})
      U == X \ {c.pin}
      At(a) == {e \in DOMAIN c.g : a \in Ends(c, e) /\ Ends(c, e) \subseteq X}
      Oth(e, a) == IF c.g[e][1] = a THEN c.g[e][2] ELSE c.g[e][1]
      A == [a \in U |-> [b \in U |-> IF a = b THEN SumR([e \in At(a) |-> R(c.g[e][3])], At(a))
                                     ELSE LET Y == {e \in At(a) : Oth(e, a) = b} IN RNeg(SumR([e \in Y |-> R(c.g[e][3])], Y))]]
      y == [a \in U |-> SumR([e \in At(a) |-> RMul(R(c.g[e][3]), Eps(c, q, a, Oth(e, a)))], At(a))]
      x == Elim(U, A, y)
  IN [n \in DOMAIN c.ty |-> IF n = c.pin THEN q[n]
                            ELSE IF n \in U /\ In(c, n, RAdd(q[n], x[n])) THEN RAdd(q[n], x[n]) ELSE None]
Surface(c) == Step(c, First(c))

Now == [g |-> g, ty |-> ty, ini |-> ini, pin |-> pin]
Init == \E c \in Starts : /\ g = c.g /\ ty = c.ty /\ ini = c.ini /\ pin = c.pin
                          /\ back = [n \in DOMAIN c.ty |-> n] /\ zero = Surface(c) /\ left = Steps /\ what = <<>>
Done(w) == left > 0 /\ left' = left - 1 /\ what' = Append(what, w) /\ UNCHANGED zero
Sw(i, j, n) == IF n = i THEN j ELSE IF n = j THEN i ELSE n
SwapCasts == \E i, j \in DOMAIN ty : i < j /\ Done("casts")
   /\ ty' = [n \in DOMAIN ty |-> ty[Sw(i, j, n)]] /\ ini' = [n \in DOMAIN ini |-> ini[Sw(i, j, n)]]
   /\ back' = [n \in DOMAIN back |-> back[Sw(i, j, n)]] /\ pin' = Sw(i, j, pin)
   /\ g' = [e \in DOMAIN g |-> <<Sw(i, j, g[e][1]), Sw(i, j, g[e][2]), g[e][3]>>]
Rotate == Len(ty) > 2 /\ Done("rotate")
   /\ LET N == Len(ty)  to(n) == (n % N) + 1  from(n) == ((n + N - 2) % N) + 1
      IN /\ ty' = [n \in DOMAIN ty |-> ty[from(n)]] /\ ini' = [n \in DOMAIN ini |-> ini[from(n)]]
         /\ back' = [n \in DOMAIN back |-> back[from(n)]] /\ pin' = to(pin)
         /\ g' = [e \in DOMAIN g |-> <<to(g[e][1]), to(g[e][2]), g[e][3]>>]
SwapEdges == \E e, f \in DOMAIN g : e < f /\ Done("edges")
   /\ g' = [h \in DOMAIN g |-> g[Sw(e, f, h)]] /\ UNCHANGED <<ty, ini, back, pin>>
Reverse == \E e \in DOMAIN g : Done("reverse")
   /\ g' = [g EXCEPT ![e] = <<g[e][2], g[e][1], g[e][3]>>] /\ UNCHANGED <<ty, ini, back, pin>>
AddLand == \E n \in DOMAIN ty : Done("land")
   /\ ty' = Append(ty, LandType) /\ ini' = Append(ini, 20) /\ back' = Append(back, 0)
   /\ g' = Append(g, <<Len(ty) + 1, n, 8>>) /\ UNCHANGED pin
AddWater == Done("water")      \* joined to other added casts only
   /\ ty' = Append(ty, WaterType) /\ ini' = Append(ini, 22) /\ back' = Append(back, 0)
   /\ UNCHANGED pin
   /\ LET Z == {n \in DOMAIN ty : back[n] = 0 /\ ty[n] = WaterType}
      IN g' = (IF Z = {} THEN g ELSE Append(g, <<CHOOSE z \in Z : TRUE, Len(ty) + 1, 4>>))
Next == SwapCasts \/ Rotate \/ SwapEdges \/ Reverse \/ AddLand \/ AddWater
Spec == Init /\ [][Next]_vars

\* the same ocean: every original cast is still there, once
Faithful == \A m \in DOMAIN zero : Cardinality({n \in DOMAIN back : back[n] = m}) = 1
Equivariant == LET s == Surface(Now) IN \A n \in DOMAIN ty : s[n] = IF back[n] = 0 THEN None ELSE zero[back[n]]
Inv == Faithful /\ Equivariant
Emitted == left = 0 => Emit([g |-> g, ty |-> ty, ini |-> ini, pin |-> pin, back |-> back, zero |-> zero, what |-> what])
=============================================================================
