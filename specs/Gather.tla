------------------------------- MODULE Gather -------------------------------
(* Taking from, and adding up into, numbered places; the first unbroken run (C22).

   idx is a sequence of places, negative for nowhere.  The machine reads idx one
   entry after the other: taken gets the value at the place (a filler for nowhere),
   sums gets the entry's own value added at the place (nothing for nowhere).
   The same machine walks along two columns of bottles (1: there, 0: missing) and
   keeps the first unbroken run of each and of both together.                    *)
EXTENDS Util
CONSTANTS NPlace, MaxLen
VARIABLES len, idx, a, b, at, taken, sums, run, open
vars == <<len, idx, a, b, at, taken, sums, run, open>>
Fill == NaNI
Vals(n) == [i \in 1..n |-> 3 * i * i - 7]       \* distinct, of both signs

Init == /\ len \in 0..MaxLen /\ idx = <<>> /\ a = <<>> /\ b = <<>> /\ at = 0 /\ taken = <<>>
        /\ sums = [k \in 1..NPlace |-> 0]
        /\ run = [w \in {"a", "b", "ab"} |-> <<len, len>>] /\ open = [w \in {"a", "b", "ab"} |-> "no"]
There(w, x, y) == CASE w = "a" -> x = 1 [] w = "b" -> y = 1 [] OTHER -> x = 1 /\ y = 1
Good(w, i) == There(w, a[i], b[i])
Read(j, x, y) ==
  /\ at < len /\ at' = at + 1 /\ idx' = Append(idx, j) /\ a' = Append(a, x) /\ b' = Append(b, y)
  /\ taken' = Append(taken, IF j < 0 THEN Fill ELSE Vals(NPlace)[j + 1])
  /\ sums' = IF j < 0 THEN sums ELSE [sums EXCEPT ![j + 1] = @ + Vals(MaxLen)[at + 1]]
  /\ open' = [w \in DOMAIN open |-> IF open[w] = "no" /\ There(w, x, y) THEN "yes" ELSE IF open[w] = "yes" /\ ~There(w, x, y) THEN "closed" ELSE open[w]]
  /\ run' = [w \in DOMAIN run |-> IF open[w] = "no" /\ There(w, x, y) THEN <<at, len>> ELSE IF open[w] = "yes" /\ ~There(w, x, y) THEN <<run[w][1], at>> ELSE run[w]]
  /\ UNCHANGED len
Next == \E j \in -2..(NPlace - 1), x \in 0..1, y \in 0..1 : Read(j, x, y)
Spec == Init /\ [][Next]_vars
Done == at = len
\* nothing is lost: the groups add up to the values that have a place
RECURSIVE Upto(_)
Upto(i) == IF i = 0 THEN 0 ELSE Upto(i - 1) + (IF idx[i] < 0 THEN 0 ELSE Vals(MaxLen)[i])
Inv == /\ SumSeq(sums) = Upto(at) /\ Len(taken) = at
       /\ Done => \A w \in DOMAIN run : LET k == run[w][1]  K == run[w][2] IN
            /\ \A i \in 1..k : ~Good(w, i)
            /\ \A i \in (k + 1)..K : Good(w, i)
            /\ K < Len(idx) => ~Good(w, K + 1) /\ k < K
Emitted == Done => Emit([idx |-> idx, a |-> a, b |-> b, taken |-> taken, sums |-> sums, places |-> Vals(NPlace), vals |-> SubSeq(Vals(MaxLen), 1, Len(idx)), run |-> run])
=============================================================================
