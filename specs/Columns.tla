------------------------------- MODULE Columns -------------------------------
(* Arrays seen as columns (C22).

   An array of any number of dimensions, one of them (axis) vertical.  Its cells are
   numbered row by row; cell l holds the value l + 1 or is missing.  The machine
   goes down all columns at once, layer by layer, and remembers for each column the
   first layer that is missing: the column's depth, the number of layers if none is.
   Reading the array at a layer, at the bottom (depth - 1) or at any given layer per
   column, and reading a common 1-D array of levels the same way, is then defined. *)
EXTENDS Util
CONSTANTS Shapes, MaxMiss      \* sequences of dimensions; at most this many missing or this many present cells
VARIABLES dims, axis, miss, layer, first
vars == <<dims, axis, miss, layer, first>>

RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE Head(d) * Prod(Tail(d))
Size == Prod(dims)
Before == Prod(SubSeq(dims, 1, axis - 1))
N == dims[axis]
After == Prod(SubSeq(dims, axis + 1, Len(dims)))
\* column <<i, k>>, layer j (from 0) is cell
Cell(c, j) == (c[1] * N + j) * After + c[2]
Cols == {<<i, k>> : i \in 0..(Before - 1), k \in 0..(After - 1)}
ColAt(x) == <<x \div After, x % After>>           \* columns in the order of the remaining dimensions
NoLayer == -1

RECURSIVE Few(_, _)                       \* subsets with at most k elements
Few(S, k) == IF k = 0 THEN {{}} ELSE LET F == Few(S, k - 1) IN F \union {m \union {x} : m \in F, x \in S}
All == 0..(Prod(dims) - 1)
Init == /\ dims \in Shapes /\ axis \in 1..Len(dims)
        /\ miss \in Few(All, MaxMiss) \union {All \ m : m \in Few(All, MaxMiss)}
        /\ layer = 0 /\ first = [c \in Cols |-> NoLayer]
Down == /\ layer < N /\ layer' = layer + 1
        /\ first' = [c \in Cols |-> IF first[c] = NoLayer /\ Cell(c, layer) \in miss THEN layer ELSE first[c]]
        /\ UNCHANGED <<dims, axis, miss>>
Spec == Init /\ [][Down]_vars

Done == layer = N
Depth(c) == IF first[c] = NoLayer THEN N ELSE first[c]
ValAt(c, j) == IF j < 0 \/ Cell(c, j) \in miss THEN NaNI ELSE Cell(c, j) + 1
\* the cells above the depth are there, the cell at it is not, and nothing else has been looked at
Inv == \A c \in Cols :
   /\ \A j \in 0..(layer - 1) : j < (IF first[c] = NoLayer THEN layer ELSE first[c]) => Cell(c, j) \notin miss
   /\ first[c] # NoLayer => Cell(c, first[c]) \in miss
   /\ Done => (ValAt(c, Depth(c) - 1) = NaNI) = (Cell(c, 0) \in miss)
Bijective == {Cell(c, j) : c \in Cols, j \in 0..(N - 1)} = 0..(Size - 1)
PerCol(F(_)) == [x \in 1..(Before * After) |-> F(ColAt(x - 1))]
\* some layer for each column, some of them none
Pick(c) == ((c[1] + 2 * c[2] + Cardinality(miss)) % (N + 1)) - 1
Emitted == Done => Emit([dims |-> dims, axis |-> axis - 1, miss |-> [l \in 1..Size |-> IF (l - 1) \in miss THEN 1 ELSE 0],
   depth |-> PerCol(Depth), bottom |-> PerCol(LAMBDA c : ValAt(c, Depth(c) - 1)), pick |-> PerCol(Pick), picked |-> PerCol(LAMBDA c : ValAt(c, Pick(c))),
   layers |-> [j \in 1..N |-> PerCol(LAMBDA c : ValAt(c, j - 1))]])
=============================================================================
