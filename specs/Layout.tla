------------------------------- MODULE Layout -------------------------------
(* How an ocean reaches a calculation and comes back (C15).

   An ocean is NC casts of NK data.  The caller lays it out in memory: the casts
   along one, two or three horizontal axes (hs), the vertical axis "z" at any
   position, strides and a base offset (C order, Fortran order, or the vertical
   running backwards), in a plain or a labelled container with or without
   coordinates, and says which axis is vertical by position (counted from the
   front or the back) or by name.  Pressure comes as a full array or as one
   profile.  The pinning cast comes as an index or as labels.

   The calculation resolves the vertical axis, resolves the pin, gathers every
   cast from memory, spreads pressure, computes one value per cast, and hands the
   values back on the horizontal axes, labelled if the input was; a mutating
   calculation (the stabilizer) writes the data back through the same addresses.

   A datum's identity is (cast - 1) * NK + level; memory is a sequence of them. *)
EXTENDS Util
CONSTANTS Shapes, NK, Memories, Containers, PForms, Calls

VARIABLES hs, axes, memo, cont, vspec, pform, pinform, pin, call,     \* the caller's choices
          mem, vert, pinflat, casts, prs, out, dims, pc
vars == <<hs, axes, memo, cont, vspec, pform, pinform, pin, call, mem, vert, pinflat, casts, prs, out, dims, pc>>
choice == <<hs, axes, memo, cont, vspec, pform, pinform, pin, call>>

HName == <<"x", "y", "w">>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
NC == Prod(hs)
Size(a) == IF a = "z" THEN NK ELSE LET i == CHOOSE i \in DOMAIN hs : HName[i] = a IN hs[i]
Shape == [i \in DOMAIN axes |-> Size(axes[i])]
\* strides: number of elements between neighbours along each axis
CStride(i) == Prod([j \in 1..(Len(axes) - i) |-> Shape[i + j]])
FStride(i) == Prod([j \in 1..(i - 1) |-> Shape[j]])
Stride(i) == CASE memo = "C" -> CStride(i) [] memo = "F" -> FStride(i)
               [] memo = "back" -> IF axes[i] = "z" THEN -CStride(i) ELSE CStride(i)
Base == IF memo = "back" THEN LET i == CHOOSE i \in DOMAIN axes : axes[i] = "z" IN (NK - 1) * CStride(i) ELSE 0
Address(idx) == Base + SumSeq([i \in DOMAIN axes |-> idx[i] * Stride(i)])      \* idx: 0-based
\* horizontal index of cast c (row-major), 0-based
HIndex(c) == [i \in DOMAIN hs |-> ((c - 1) \div Prod([j \in 1..(Len(hs) - i) |-> hs[i + j]])) % hs[i]]
IndexOf(c, k, v) == [i \in DOMAIN axes |-> IF i = v THEN k - 1 ELSE HIndex(c)[IF i < v THEN i ELSE i - 1]]
Zpos == CHOOSE i \in DOMAIN axes : axes[i] = "z"
Datum(c, k) == (c - 1) * NK + k
Total == NC * NK
RECURSIVE Horner(_, _)
Horner(ix, i) == IF i = 0 THEN 0 ELSE Horner(ix, i - 1) * hs[i] + ix[i]
\* the datum at offset a (the inverse of Address)
AbsStride(i) == IF memo = "F" THEN FStride(i) ELSE CStride(i)
Along(a, i) == LET q == (a \div AbsStride(i)) % Shape[i] IN IF memo = "back" /\ axes[i] = "z" THEN NK - 1 - q ELSE q
CastAt(a, v) == 1 + Horner([i \in DOMAIN hs |-> Along(a, IF i < v THEN i ELSE i + 1)], Len(hs))
LevelAt(a, v) == 1 + Along(a, v)
Lay == [a \in 1..Total |-> Datum(CastAt(a - 1, Zpos), LevelAt(a - 1, Zpos))]
Inverse == \A c \in 1..NC : \A k \in 1..NK : Lay[Address(IndexOf(c, k, Zpos)) + 1] = Datum(c, k)

\* how the vertical axis can be named for a container
VSpecs == {<<"front", Zpos - 1>>, <<"back", Zpos - 1 - Len(axes)>>} \union (IF cont = "plain" THEN {} ELSE {<<"name", 0>>})
PinForms == {"index"} \union (IF Len(hs) = 1 THEN {"int"} ELSE {}) \union (IF cont = "plain" THEN {} ELSE {"labels", "labels-reversed"})

Insert(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Init == /\ hs \in Shapes
        /\ \E v \in 1..(Len(hs) + 1) : axes = Insert(SubSeq(HName, 1, Len(hs)), v, "z")
        /\ memo \in Memories /\ cont \in Containers /\ vspec \in VSpecs /\ pform \in PForms
        /\ pinform \in PinForms /\ call \in Calls
        /\ pin \in {1, Min2(NC, 2 + Len(hs))}
        /\ mem = Lay
        /\ vert = 0 /\ pinflat = 0 /\ casts = <<>> /\ prs = <<>> /\ out = <<>> /\ dims = <<>> /\ pc = "given"

ResolveVert == /\ pc = "given" /\ pc' = "pin"
               /\ vert' = CASE vspec[1] = "front" -> vspec[2] + 1
                            [] vspec[1] = "back" -> Len(axes) + vspec[2] + 1
                            [] vspec[1] = "name" -> CHOOSE i \in DOMAIN axes : axes[i] = "z"
               /\ UNCHANGED <<choice, mem, pinflat, casts, prs, out, dims>>
\* labels are a function from axis name to position; the order in which they are given is immaterial
Labels == [i \in DOMAIN hs |-> <<HName[i], HIndex(pin)[i]>>]
Given == IF pinform = "labels-reversed" THEN [i \in DOMAIN hs |-> Labels[Len(hs) + 1 - i]] ELSE Labels
PosOf(a) == (CHOOSE l \in Range(Given) : l[1] = a)[2]
ResolvePin == /\ pc = "pin" /\ pc' = "gather"
              /\ LET ha == SelectSeq(axes, LAMBDA a : a # "z")
                     ix == [i \in DOMAIN hs |-> IF pinform \in {"labels", "labels-reversed"} THEN PosOf(ha[i]) ELSE HIndex(pin)[i]]
                 IN pinflat' = 1 + Horner(ix, Len(hs))
              /\ UNCHANGED <<choice, mem, vert, casts, prs, out, dims>>
Gather == /\ pc = "gather" /\ pc' = "spread"
          /\ casts' = [c \in 1..NC |-> [k \in 1..NK |-> mem[Address(IndexOf(c, k, vert)) + 1]]]
          /\ UNCHANGED <<choice, mem, vert, pinflat, prs, out, dims>>
\* a profile holds level k of every cast; a full array is laid out like the data
Spread == /\ pc = "spread" /\ pc' = "compute"
          /\ prs' = IF pform = "profile" THEN [c \in 1..NC |-> [k \in 1..NK |-> k]]
                    ELSE [c \in 1..NC |-> [k \in 1..NK |-> ((mem[Address(IndexOf(c, k, vert)) + 1] - 1) % NK) + 1]]
          /\ UNCHANGED <<choice, mem, vert, pinflat, casts, out, dims>>
Compute == /\ pc = "compute" /\ pc' = "dress"
           /\ out' = [c \in 1..NC |-> <<casts[c], prs[c]>>]
           /\ mem' = IF call = "mutate"
                     THEN [a \in 1..Total |-> -casts[CastAt(a - 1, vert)][LevelAt(a - 1, vert)]]          \* -id: the new value of the datum
                     ELSE mem
           /\ UNCHANGED <<choice, vert, pinflat, casts, prs, dims>>
Dress == /\ pc = "dress" /\ pc' = "done"
         /\ dims' = IF cont = "plain" THEN <<>> ELSE SelectSeq(axes, LAMBDA a : a # "z")
         /\ UNCHANGED <<choice, mem, vert, pinflat, casts, prs, out>>
Next == ResolveVert \/ ResolvePin \/ Gather \/ Spread \/ Compute \/ Dress
Spec == Init /\ [][Next]_vars

RightLay == pc = "given" => Inverse
RightAxis == pc # "given" => vert = Zpos
RightPin == pc \notin {"given", "pin"} => pinflat = pin
Canonical == casts # <<>> => \A c \in 1..NC : \A k \in 1..NK : casts[c][k] = Datum(c, k)
OwnPressure == prs # <<>> => \A c \in 1..NC : \A k \in 1..NK : prs[c][k] = k
Result == out # <<>> => \A c \in 1..NC : out[c] = <<[k \in 1..NK |-> Datum(c, k)], [k \in 1..NK |-> k]>>
Unmodified == call # "mutate" => mem = Lay
Mutated == call = "mutate" /\ pc \in {"dress", "done"} => mem = [a \in 1..Total |-> -Lay[a]]
Labelled == pc = "done" /\ cont # "plain" => dims = SubSeq(HName, 1, Len(hs))
Inv == RightLay /\ RightAxis /\ RightPin /\ Canonical /\ OwnPressure /\ Result /\ Unmodified /\ Mutated /\ Labelled
Emitted == pc = "done" =>
   Emit([hs |-> hs, axes |-> axes, shape |-> Shape, strides |-> [i \in DOMAIN axes |-> Stride(i)], base |-> Base, mem |-> Lay, memo |-> memo,
         cont |-> cont, vspec |-> vspec, pform |-> pform, pinform |-> pinform, pin |-> HIndex(pin), call |-> call, dims |-> dims])
=============================================================================
