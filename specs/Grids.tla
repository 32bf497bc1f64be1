-------------------------------- MODULE Grids --------------------------------
(* Grid builders (property C13): rectilinear, tripolar and tiled grids.

   Behaviour: pick a grid; visit every cell and every direction once, adding the
   edge (if the grid has one there) with the place its geometry is stored at.
   The result is compared with an order-free definition of adjacency, and
   emitted: a bag of <<lo, hi, direction, p, q, r>> with (p,q,r) the array index
   at which dist/distperp of that edge are given.                              *)
EXTENDS Util
CONSTANTS Grids      \* set of grid descriptions, see below
VARIABLES gr, todo, edges
vars == <<gr, todo, edges>>
\* rect : [kind |-> "rect", n1, n2, per1, per2]
\* tri  : [kind |-> "tri", n1 (nj), n2 (ni)]
\* tile : [kind |-> "tile", n, nf, link : [0..nf-1 -> [{"X","Y"} -> link or <<>>]] of LEFT edges
\*         -> the right edge <<face, axis>> they join, xsh, ysh, perm]
RectGrids(N1, N2) == [kind : {"rect"}, n1 : N1, n2 : N2, per1 : BOOLEAN, per2 : BOOLEAN]
TriGrids(N1, N2) == [kind : {"tri"}, n1 : N1, n2 : N2]

Edge2(nf) == (0..(nf - 1)) \X {"X", "Y"}
\* partial injections from left edges to right edges
RECURSIVE Matchings(_, _)
Matchings(Ls, Rs) == IF Ls = {} THEN {<<>>}
   ELSE LET e == CHOOSE e \in Ls : TRUE
        IN Matchings(Ls \ {e}, Rs)
           \union UNION {{Append(m, <<e, r>>) : m \in Matchings(Ls \ {e}, Rs \ {r})} : r \in Rs}
Perms == {<<"t", "j", "i">>, <<"t", "i", "j">>, <<"j", "t", "i">>, <<"j", "i", "t">>, <<"i", "t", "j">>, <<"i", "j", "t">>}
\* A link between edges of different axes is stored exactly once only if both shifts agree
\* (with xsh = "right", ysh = "left" neither array has a place for X-left to Y-right).
TileGrids(n, nf, ms, perms) ==
  {g \in [kind : {"tile"}, n : {n}, nf : {nf}, link : ms, xsh : {"left", "right"}, ysh : {"left", "right"}, perm : perms] :
     g.xsh = g.ysh \/ \A k \in 1..Len(g.link) : g.link[k][1][2] = g.link[k][2][2]}

\* ---- cells ---------------------------------------------------------------------
Cells(g) == IF g.kind = "tile" THEN (0..(g.nf - 1)) \X (0..(g.n - 1)) \X (0..(g.n - 1))     \* <<t, j, i>>
            ELSE {0} \X (0..(g.n1 - 1)) \X (0..(g.n2 - 1))                                  \* <<0, first, second>>
Size(g, d) == IF d = "t" THEN g.nf ELSE g.n
Co(c, d) == IF d = "t" THEN c[1] ELSE IF d = "j" THEN c[2] ELSE c[3]
Lin(g, c) == IF g.kind = "tile"
   THEN (Co(c, g.perm[1]) * Size(g, g.perm[2]) + Co(c, g.perm[2])) * Size(g, g.perm[3]) + Co(c, g.perm[3])
   ELSE c[2] * g.n2 + c[3]
Place(g, c) == IF g.kind = "tile" THEN <<Co(c, g.perm[1]), Co(c, g.perm[2]), Co(c, g.perm[3])>> ELSE <<c[2], c[3], 0>>

\* ---- tiles: the cell beyond the left or right edge of a face ---------------------------
LeftLink(g, f, ax) == IF \E k \in 1..Len(g.link) : g.link[k][1] = <<f, ax>>
                      THEN {g.link[CHOOSE k \in 1..Len(g.link) : g.link[k][1] = <<f, ax>>][2]} ELSE {}
RightLink(g, f, ax) == IF \E k \in 1..Len(g.link) : g.link[k][2] = <<f, ax>>
                       THEN {g.link[CHOOSE k \in 1..Len(g.link) : g.link[k][2] = <<f, ax>>][1]} ELSE {}
Cell(f, ax, nrm, tng) == IF ax = "X" THEN <<f, tng, nrm>> ELSE <<f, nrm, tng>>
Nrm(c, ax) == IF ax = "X" THEN c[3] ELSE c[2]
Tng(c, ax) == IF ax = "X" THEN c[2] ELSE c[3]
\* same axis: tangential index kept; different axes: tangential index flipped
Across(g, c, ax, e, nrm) == Cell(e[1], e[2], nrm, IF e[2] = ax THEN Tng(c, ax) ELSE g.n - 1 - Tng(c, ax))
TileNbr(g, c, ax, side) ==
   IF side = "left"
   THEN IF Nrm(c, ax) > 0 THEN {Cell(c[1], ax, Nrm(c, ax) - 1, Tng(c, ax))}
        ELSE {Across(g, c, ax, e, g.n - 1) : e \in LeftLink(g, c[1], ax)}
   ELSE IF Nrm(c, ax) < g.n - 1 THEN {Cell(c[1], ax, Nrm(c, ax) + 1, Tng(c, ax))}
        ELSE {Across(g, c, ax, e, 0) : e \in RightLink(g, c[1], ax)}

\* ---- the neighbour whose edge is stored at cell c in direction d (a set of 0 or 1 cells) ---
Nbr(g, c, d) ==
  CASE g.kind = "rect" /\ d = 1 -> IF c[2] > 0 THEN {<<0, c[2] - 1, c[3]>>}
                                   ELSE IF g.per1 THEN {<<0, g.n1 - 1, c[3]>>} ELSE {}
    [] g.kind = "rect" /\ d = 2 -> IF c[3] > 0 THEN {<<0, c[2], c[3] - 1>>}
                                   ELSE IF g.per2 THEN {<<0, c[2], g.n2 - 1>>} ELSE {}
    [] g.kind = "tri" /\ d = 1 -> IF c[2] < g.n1 - 1 THEN {<<0, c[2] + 1, c[3]>>}        \* northward
                                  ELSE {<<0, c[2], g.n2 - 1 - c[3]>>}                   \* the fold
    [] g.kind = "tri" /\ d = 2 -> {<<0, c[2], (c[3] + 1) % g.n2>>}                       \* eastward, periodic
    [] g.kind = "tile" /\ d = 1 -> TileNbr(g, c, "X", g.xsh)
    [] g.kind = "tile" /\ d = 2 -> TileNbr(g, c, "Y", g.ysh)

Init == gr \in Grids /\ todo = Cells(gr) \X {1, 2} /\ edges = <<>>
Visit == /\ todo # {}
         /\ LET w == CHOOSE w \in todo : TRUE
                c == w[1]
            IN /\ edges' = IF Nbr(gr, c, w[2]) = {} THEN edges
                           ELSE LET m == CHOOSE m \in Nbr(gr, c, w[2]) : TRUE
                                    a == Lin(gr, c)  b == Lin(gr, m)
                                IN Append(edges, <<Min2(a, b), Max2(a, b), w[2]>> \o Place(gr, c))
               /\ todo' = todo \ {w}
         /\ UNCHANGED gr
Spec == Init /\ [][Visit]_vars
Ready == todo = {}

\* ---- order-free definition of adjacency ---------------------------------------------
N(g) == Cardinality(Cells(g))
Multi(a, b) == Cardinality({k \in 1..Len(edges) : edges[k][1] = Min2(a, b) /\ edges[k][2] = Max2(a, b)})
Bool(p) == IF p THEN 1 ELSE 0
\* how many times cells c # m touch
Touch(g, c, m) ==
  CASE g.kind = "rect" ->
         (IF c[3] = m[3] THEN Bool(Abs(c[2] - m[2]) = 1) + Bool(g.per1 /\ {c[2], m[2]} = {0, g.n1 - 1}) ELSE 0)
       + (IF c[2] = m[2] THEN Bool(Abs(c[3] - m[3]) = 1) + Bool(g.per2 /\ {c[3], m[3]} = {0, g.n2 - 1}) ELSE 0)
    [] g.kind = "tri" ->
         (IF c[3] = m[3] THEN Bool(Abs(c[2] - m[2]) = 1) ELSE 0)
       + (IF c[2] = m[2] THEN Bool(Abs(c[3] - m[3]) = 1) + Bool({c[3], m[3]} = {0, g.n2 - 1})
                              + 2 * Bool(c[2] = g.n1 - 1 /\ c[3] + m[3] = g.n2 - 1)  \* listed from either side of the fold
          ELSE 0)
    [] g.kind = "tile" -> SumSeq([k \in 1..2 |-> LET ax == <<"X", "Y">>[k] IN
             Bool(m \in TileNbr(g, c, ax, "left")) + Bool(m \in TileNbr(g, c, ax, "right"))])
Exact == Ready => \A c, m \in Cells(gr) : c # m => Multi(Lin(gr, c), Lin(gr, m)) = Touch(gr, c, m)
\* the relation "beyond the left edge" and "beyond the right edge" are inverse
Mutual == gr.kind = "tile" => \A c \in Cells(gr), ax \in {"X", "Y"} : \A m \in TileNbr(gr, c, ax, "left") :
             \E ax2 \in {"X", "Y"} : c \in TileNbr(gr, m, ax2, "right")
Numbering == {Lin(gr, c) : c \in Cells(gr)} = 0..(N(gr) - 1)
InRange == \A k \in 1..Len(edges) : edges[k][1] \in 0..(N(gr) - 1) /\ edges[k][2] \in 0..(N(gr) - 1)
Inv == Exact /\ Mutual /\ Numbering /\ InRange
Emitted == Ready => Emit([grid |-> gr, edges |-> edges])
=============================================================================
