----------------------------- MODULE EosRegistry -----------------------------
(* The factories of equations of state (C17).

   A request names an equation of state, which function of it is wanted (itself,
   its S,T-derivatives, its p-derivative) and, optionally, gravity and reference
   density (0: not given; both are needed for the Boussinesq form).  Requests are
   answered through two bounded least-recently-used memories: one for requests,
   one for Boussinesq forms.  A memory of forms is keyed by the function wrapped,
   both constants and the number of pressure derivatives.

   A function's identity is [base, d, grav, rho, np]: the function d of equation
   base, evaluated at 1e-4 * grav * rho * z, times (1e-4 * grav * rho)^np.       *)
EXTENDS Util
CONSTANTS Eos, Unknown, Kinds, Consts, Cap, Cap2, MaxLen
VARIABLES cache, forms, hist, ans
vars == <<cache, forms, hist, ans>>

Requests == [eos : Eos \union Unknown, d : Kinds, k : Consts]        \* k = <<grav, rho>>
NP(d) == IF d = "p" THEN 1 ELSE 0
Both(k) == k[1] # 0 /\ k[2] # 0
Plain(r) == [base |-> r.eos, d |-> r.d, k |-> <<0, 0>>, np |-> 0]
Wrapped(f, k, np) == [f EXCEPT !.k = k, !.np = np]
\* what a request means, whatever happened before
Want(r) == IF r.eos \in Unknown THEN [base |-> "error", d |-> r.d, k |-> <<0, 0>>, np |-> 0]
           ELSE IF Both(r.k) THEN Wrapped(Plain(r), r.k, NP(r.d)) ELSE Plain(r)

Find(c, key) == {i \in DOMAIN c : c[i][1] = key}
Remember(c, key, f, cap) == SubSeq(<<<<key, f>>>> \o SelectSeq(c, LAMBDA e : e[1] # key), 1, Min2(cap, 1 + Len(SelectSeq(c, LAMBDA e : e[1] # key))))

Init == cache = <<>> /\ forms = <<>> /\ hist = <<>> /\ ans = [base |-> "none", d |-> "", k |-> <<0, 0>>, np |-> 0]
Hit(r) == /\ Find(cache, r) # {}
          /\ ans' = cache[CHOOSE i \in Find(cache, r) : TRUE][2]
          /\ cache' = Remember(cache, r, ans', Cap) /\ UNCHANGED forms
MissPlain(r) == /\ Find(cache, r) = {} /\ r.eos \notin Unknown /\ ~Both(r.k)
                /\ ans' = Plain(r) /\ cache' = Remember(cache, r, ans', Cap) /\ UNCHANGED forms
MissForm(r) == /\ Find(cache, r) = {} /\ r.eos \notin Unknown /\ Both(r.k)
               /\ LET key == <<Plain(r), r.k, NP(r.d)>>
                  IN ans' = IF Find(forms, key) # {} THEN forms[CHOOSE i \in Find(forms, key) : TRUE][2] ELSE Wrapped(Plain(r), r.k, NP(r.d))
               /\ forms' = Remember(forms, <<Plain(r), r.k, NP(r.d)>>, ans', Cap2)
               /\ cache' = Remember(cache, r, ans', Cap)
Reject(r) == /\ r.eos \in Unknown /\ ans' = Want(r) /\ UNCHANGED <<cache, forms>>
Next == Len(hist) < MaxLen /\ \E r \in Requests :
           /\ (Hit(r) \/ MissPlain(r) \/ MissForm(r) \/ Reject(r))
           /\ hist' = Append(hist, [r |-> r, want |-> Want(r)])
Spec == Init /\ [][Next]_vars

\* the answer is determined by the request
Determined == hist # <<>> => ans = hist[Len(hist)].want
CacheRight == /\ \A i \in DOMAIN cache : cache[i][2] = Want(cache[i][1])
              /\ \A i, j \in DOMAIN cache : i # j => cache[i][1] # cache[j][1]
              /\ Len(cache) <= Cap /\ Len(forms) <= Cap2
FormsRight == \A i \in DOMAIN forms : LET key == forms[i][1] IN forms[i][2] = Wrapped(key[1], key[2], key[3])
ErrorsForgotten == \A i \in DOMAIN cache : cache[i][1].eos \notin Unknown
Inv == Determined /\ CacheRight /\ FormsRight /\ ErrorsForgotten
Emitted == Len(hist) = MaxLen => Emit([h |-> hist])
=============================================================================
