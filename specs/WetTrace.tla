------------------------------ MODULE WetTrace ------------------------------
(* Recorded calls of the perimeter-wetting search on real columns, judged by the
   wetting rules of Omega.tla.
   nb    : neighbours of every cast         root : pinning cast
   w0,w1 : wet before / after               p : pressure after (fixed point; NaNI dry)
   keep  : 1 where a cast wet before has exactly the same s, t, p after
   link  : for every cast, neutral links <<m, z, k>> from neighbour m that is wet after:
           z pressure of the link, k = 1 good (inside, below the mixed layer), 2 too close to call, 0 none
   land  : casts with fewer than two usable bottles
   new   : returned count       tol : tolerance on p        all : unlimited passes   *)
EXTENDS Util, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(c, cond) == IF cond THEN {c} ELSE {}
Clauses(e) ==
  LET N == DOMAIN e.nb
      W0 == {n \in N : e.w0[n] = 1}
      W1 == {n \in N : e.w1[n] = 1}
      nb(n) == Range(e.nb[n])
      RECURSIVE Reach(_, _)
      Reach(X, W) == LET Y == X \union UNION {nb(n) \intersect W : n \in X} IN IF Y = X THEN X ELSE Reach(Y, W)
      comp == IF e.root \in W0 THEN Reach({e.root}, W0) ELSE {}
      fresh == W1 \ comp
      links(n) == Range(e.link[n])
      must(n) == {k \in links(n) : k[1] \in comp /\ k[3] = 1}
      may(n) == {k \in links(n) : (k[1] \notin comp /\ k[3] = 1) \/ k[3] = 2}
      meanOK(n) == \E X \in SUBSET may(n) :
                      LET Y == must(n) \union X
                          c == Cardinality(Y)
                      IN c > 0 /\ Abs(SumOver([k \in Y |-> k[2] - e.p[n]], Y)) <= c * e.tol
  IN IF e.root \notin W0 THEN {} ELSE
     Bad("KeepsPatch", \E n \in comp : n \notin W1 \/ e.keep[n] = 0)
     \union Bad("Connected", Reach({e.root}, W1) # W1)
     \union Bad("OnlyByLink", \E n \in fresh : must(n) \union may(n) = {})
     \union Bad("MeanOfLinks", \E n \in fresh : must(n) \union may(n) # {} /\ ~meanOK(n))
     \union Bad("LandStaysDry", \E n \in fresh : e.land[n] = 1)
     \* a dry cast beside the original patch with a good link from it is wetted
     \union Bad("Wetted", \E n \in N \ W1 : n \notin W0 /\ must(n) # {})
     \* and so is one beside newly wetted casts, if all of those have good links to it
     \union Bad("WettedFurther", e.all /\ \E n \in N \ W1 : n \notin W0 /\ e.land[n] = 0 /\ nb(n) \intersect comp = {} /\ nb(n) \intersect W1 # {}
                    /\ \A m \in nb(n) \intersect W1 : \E k \in links(n) : k[1] = m /\ k[3] = 1)
     \* only casts that were dry, or cut off from the patch, count as newly wet
     \union Bad("Count", e.new # Cardinality(fresh))
TraceInit == l = 0
TraceNext == /\ l < Len(Trace) /\ l' = l + 1
             /\ LET c == Clauses(Trace[l + 1]) IN c # {} => PrintT(<<"BAD", l + 1, c>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
