------------------------------ MODULE Session -------------------------------
(* A session of calls to the library in one process (C20).

   A call names a calculation, an equation of state, an interpolant and which
   ocean it is given; `bad` calls are malformed and raise.  The caller has two
   buffers: oceans 1 and 3 are two contents of the same buffer (the caller
   overwrites it between calls), ocean 2 is another buffer of another shape.

   Behind the calls there are bounded least-recently-used memories: of equations
   of state, of interpolants, and of compiled solvers (keyed by equation of
   state, interpolant and calculation).  Nothing else survives a call, and a
   memory may be keyed only by what determines its contents: a compiled solver
   never depends on the data.  Results handed out belong to the caller.

   A session moves between calls that differ in one respect only (calculation,
   equation of state or interpolant: Aspects), which is where a memory with too small
   a key would answer wrongly.                                                  *)
EXTENDS Util
CONSTANTS Calcs, Solvers, EosIds, Interps, Oceans, BadOnes, Aspects, CapE, CapP, CapS, MaxLen
VARIABLES around, log, em, pm, sm, buf, ans
vars == <<around, log, em, pm, sm, buf, ans>>

Calls == {[f |-> a[1], e |-> a[2], i |-> a[3], d |-> d, bad |-> b] : a \in around, d \in Oceans, b \in BadOnes}
Where(d) == IF d = 2 THEN 2 ELSE 1                      \* the buffer an ocean is put in
Fresh(c) == IF c.bad THEN <<"error">> ELSE <<c.f, <<"eos", c.e>>, <<"pp", c.i>>, <<"solver", c.f, c.e, c.i>>, c.d>>

Has(m, key) == \E k \in DOMAIN m : m[k][1] = key
Get(m, key) == m[CHOOSE k \in DOMAIN m : m[k][1] = key][2]
Put(m, key, v, cap) == LET rest == SelectSeq(m, LAMBDA x : x[1] # key)
                       IN <<<<key, v>>>> \o SubSeq(rest, 1, Min2(cap - 1, Len(rest)))
Val(m, key, fresh) == IF Has(m, key) THEN Get(m, key) ELSE fresh

Init == /\ \E f, ff \in Calcs, e, ee \in EosIds, i, ii \in Interps :
             /\ f # ff /\ e # ee /\ i # ii
             /\ around = {<<f, e, i>>} \cup (IF "calc" \in Aspects THEN {<<ff, e, i>>} ELSE {})
                        \cup (IF "eos" \in Aspects THEN {<<f, ee, i>>} ELSE {})
                        \cup (IF "interp" \in Aspects THEN {<<f, e, ii>>} ELSE {})
        /\ log = <<>> /\ em = <<>> /\ pm = <<>> /\ sm = <<>> /\ buf = <<0, 0>> /\ ans = <<>>
\* a malformed call leaves at most remembered interpolants behind
Fail(c) == /\ c.bad /\ ans' = Append(ans, <<"error">>)
           /\ \/ UNCHANGED <<em, pm, sm>>
              \/ pm' = Put(pm, c.i, Val(pm, c.i, <<"pp", c.i>>), CapP) /\ UNCHANGED <<em, sm>>
Run(c) ==
  /\ ~c.bad
  /\ LET e == Val(em, c.e, <<"eos", c.e>>)
         p == Val(pm, c.i, <<"pp", c.i>>)
         key == <<e, p, c.f>>
         s == IF c.f \in Solvers THEN Val(sm, key, <<"solver", c.f, c.e, c.i>>) ELSE <<"solver", c.f, c.e, c.i>>
     IN /\ em' = Put(em, c.e, e, CapE)
        /\ pm' = Put(pm, c.i, p, CapP)
        /\ sm' = IF c.f \in Solvers THEN Put(sm, key, s, CapS) ELSE sm
        /\ ans' = Append(ans, <<c.f, e, p, s, buf'[Where(c.d)]>>)
Call(c) == /\ Len(log) < MaxLen
           /\ buf' = [buf EXCEPT ![Where(c.d)] = c.d]
           /\ (Fail(c) \/ Run(c))
           /\ log' = Append(log, c) /\ UNCHANGED around
Next == \E c \in Calls : Call(c)
Spec == Init /\ [][Next]_vars

\* whatever came before, and for good: results handed out are never changed
DependsOnCallOnly == \A k \in DOMAIN log : ans[k] = Fresh(log[k])
MemoriesRight == /\ \A k \in DOMAIN em : em[k][2] = <<"eos", em[k][1]>>
                 /\ \A k \in DOMAIN pm : pm[k][2] = <<"pp", pm[k][1]>>
                 /\ \A k \in DOMAIN sm : sm[k][2] = <<"solver", sm[k][1][3], sm[k][1][1][2], sm[k][1][2][2]>>
Bounded == Len(em) <= CapE /\ Len(pm) <= CapP /\ Len(sm) <= CapS
Inv == DependsOnCallOnly /\ MemoriesRight /\ Bounded
KeepsAnswers == [][\A k \in DOMAIN ans : ans'[k] = ans[k]]_vars
Emitted == Len(log) = MaxLen => Emit([log |-> log])
=============================================================================
