------------------------------- MODULE Util -------------------------------
(* Small helpers shared by all specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

NaNI == -999999999          \* integer code of NaN in traces and emitted cases
IsNaN(x) == x = NaNI
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumOver(_, _)      \* sum of f[x] over x in the finite set S
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE SeqsUpTo(_, _)     \* all sequences over S of length <= n
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE LET R == SeqsUpTo(S, n - 1)
                       IN R \union {Append(r, x) : r \in {q \in R : Len(q) = n - 1}, x \in S}

\* Emit a test case (a JSON line the replay driver reads)
Emit(rec) == PrintT("CASE " \o ToJson(rec))
===========================================================================
