------------------------------ MODULE Requests -------------------------------
(* What a call asks for, option by option (C21).

   Every calculation has a table of options.  An option has a documented default
   (or must be given), values it accepts and malformed values.  A request gives
   some of the options.  Reading a request settles one option after the other: what
   is left out takes the documented default, what is malformed refuses the request,
   and so do values that contradict each other.  A request that survives is
   answered for its settings, so requests with the same settings (whatever was
   spelled out) have the same answer, and an answer is never given for something
   else than what was asked.

   Values are names; the replay knows what each stands for.  Requests explored are
   those at most Dev options away from the base request of each calculation.

   Heeded lists, for each calculation, pairs of requests whose answers differ on the
   oceans of the replay: an option that is read is also used.                     *)
EXTENDS Util
CONSTANTS Calcs, Dev
VARIABLES calc, req, eff, todo, pc
vars == <<calc, req, eff, todo, pc>>

Must == "MUST"
None == "-"
Opt(d, ok, bad) == [def |-> d, ok |-> ok, bad |-> bad]

\* options shared by the calculations that take an equation of state
Phys(eok, ebad) == [eos |-> Opt("gsw", eok, ebad), bsq |-> Opt("none", {"none", "grav", "rho", "both"}, {}), interp |-> Opt("linear", {"linear", "pchip"}, {"cubic"})]
Vert == [vert |-> Opt("last", {"last", "two"}, {})]
Shown == [diags |-> Opt("yes", {"yes", "no"}, {}), output |-> Opt("yes", {"yes", "no"}, {})]
Tol == [tol |-> Opt("1e-4", {"1e-4", "30"}, {})]
Names == {"nosuch", "number"}
Iso == Phys({"gsw", "jmd95", "pair", "alone"}, Names) @@ Vert @@ Shown @@ Tol
   @@ [ref |-> Opt("pin", {"given"}, {"badref"}), pinc |-> Opt(Must, {"std", "other"}, {"outside"}), pinp |-> Opt(Must, {"std"}, {"text"}),
       grid |-> Opt("absent", {"plain", "ones", "dist", "both", "noedges"}, {})]
Table ==
  [potential |-> Iso, anomaly |-> Iso,
   omega |-> Phys({"gsw", "jmd95", "pair"}, Names \cup {"alone"}) @@ Vert @@ Shown @@ Tol
      @@ [pinc |-> Opt(Must, {"std", "other"}, {"outside", "land"}),
          pinit |-> Opt(Must, {"scalar", "array", "labelled"}, {"shape", "reshaped", "nested", "below", "nan", "text"}),
          grid |-> Opt(Must, {"plain", "ones", "dist", "both"}, {"noedges"}),
          itermin |-> Opt("1", {"1", "3"}, {}), itermax |-> Opt("10", {"10", "2"}, {}),
          start |-> Opt("1", {"1", "2", "inf"}, {}), stop |-> Opt("5", {"5", "1"}, {}),
          tollrpd |-> Opt("1e-7", {"1e-7", "0", "1e9"}, {}), tolp |-> Opt("0", {"0", "1e9"}, {}),
          pml |-> Opt("none", {"none", "default", "dict", "array"}, {}),
          form |-> Opt("poisson", {"poisson", "gradient"}, {"nosuch"})],
   mixed |-> Phys({"gsw", "jmd95", "alone"}, Names) @@ Vert
      @@ [diff |-> Opt("0.03", {"0.03", "0.3"}, {}), pref |-> Opt("100", {"100", "2000"}, {}), bottle |-> Opt("1", {"1", "0"}, {})],
   trajectory |-> Phys({"gsw", "jmd95", "alone"}, Names) @@ Tol @@ Vert @@ [pstart |-> Opt(Must, {"std", "other"}, {})],
   link |-> Phys({"gsw", "jmd95", "alone"}, Names) @@ Tol,
   veronis |-> Phys({"gsw", "jmd95", "pair"}, Names \cup {"alone"})
      @@ [pstart |-> Opt("top", {"top", "mid"}, {}), pref |-> Opt("0", {"0", "2000"}, {}), b |-> Opt("1", {"1", "0.5"}, {}), step |-> Opt("1", {"1", "300"}, {})],
   norms |-> [eos |-> Opt("gsw", {"gsw", "jmd95", "alone"}, Names), bsq |-> Opt("none", {"none", "grav", "rho", "both"}, {}),
              grid |-> Opt(Must, {"plain", "ones", "dist", "both"}, {"noedges"})],
   stabilize |-> Vert @@ [eos |-> Opt(Must, {"alone"}, {}), least |-> Opt("1e-6", {"1e-6", "1e-3", "array"}, {}), weight |-> Opt("10", {"10", "1"}, {}),
              tolmin |-> Opt("1e-10", {"1e-10"}, {}), method |-> Opt("SLSQP", {"SLSQP"}, {}), iters |-> Opt("1000", {"1000"}, {}), verbose |-> Opt("yes", {"yes", "no"}, {})],
   unstable |-> Vert @@ [eos |-> Opt(Must, {"alone"}, {})]]

\* the base request gives what must be given, and a grid
Base(c, o) == LET t == Table[c][o] IN
   IF o = "grid" THEN "plain"
   ELSE IF t.def # Must THEN None
   ELSE IF "std" \in t.ok THEN "std" ELSE IF "scalar" \in t.ok THEN "scalar" ELSE CHOOSE v \in t.ok : TRUE
Values(c, o) == Table[c][o].ok \cup Table[c][o].bad \cup {None}
Away(c, n) == LET B == [o \in DOMAIN Table[c] |-> Base(c, o)]
                  RECURSIVE Go(_)
                  Go(k) == IF k = 0 THEN {B}
                           ELSE LET R == Go(k - 1) IN R \cup UNION {{[r EXCEPT ![o] = v] : v \in Values(c, o)} : r \in R, o \in DOMAIN B}
              IN Go(n)

Surfaces == {"potential", "anomaly", "omega"}
Contradiction(c, e) ==
   /\ c \in {"potential", "anomaly"} /\ e.diags = "yes" /\ (e.grid \in {"absent", "noedges"} \/ e.eos = "alone")
\* nothing is documented about Boussinesq constants given together with a function
Unspecified(c, e) == "bsq" \in DOMAIN e /\ e.eos \in {"pair", "alone"} /\ e.bsq # "none"

Init == /\ calc \in Calcs /\ req \in Away(calc, Dev) /\ eff = <<>> /\ todo = DOMAIN Table[calc] /\ pc = "read"
Read == /\ pc = "read" /\ todo # {}
        /\ LET o == CHOOSE x \in todo : TRUE
               t == Table[calc][o]
           IN /\ todo' = todo \ {o}
              /\ IF req[o] = None
                 THEN IF t.def = Must THEN pc' = "refused" /\ UNCHANGED eff
                      ELSE eff' = eff @@ (o :> t.def) /\ UNCHANGED pc
                 ELSE IF req[o] \in t.bad THEN pc' = "refused" /\ UNCHANGED eff
                      ELSE eff' = eff @@ (o :> req[o]) /\ UNCHANGED pc
        /\ UNCHANGED <<calc, req>>
Settle == /\ pc = "read" /\ todo = {}
          /\ pc' = IF Contradiction(calc, eff) THEN "refused" ELSE IF Unspecified(calc, eff) THEN "unspecified" ELSE "answered"
          /\ UNCHANGED <<calc, req, eff, todo>>
Next == Read \/ Settle
Spec == Init /\ [][Next]_vars

Malformed == \E o \in DOMAIN req : req[o] \in Table[calc][o].bad \/ (req[o] = None /\ Table[calc][o].def = Must)
NeverMalformed == pc \in {"answered", "unspecified"} => ~Malformed
RefusedForCause == pc = "refused" => Malformed \/ Contradiction(calc, eff)
AsAsked == pc = "answered" =>
   /\ DOMAIN eff = DOMAIN Table[calc]
   /\ \A o \in DOMAIN eff : eff[o] = IF req[o] = None THEN Table[calc][o].def ELSE req[o]
\* an equation of state is Boussinesq exactly when both constants are given
Bsq(e) == "bsq" \in DOMAIN e /\ e.bsq = "both"
\* something is printed exactly when output is wanted and there are diagnostics to print
Prints(c, e) == IF c \in Surfaces THEN e.diags = "yes" /\ e.output = "yes" ELSE IF c = "stabilize" THEN e.verbose = "yes" ELSE FALSE
Inv == NeverMalformed /\ RefusedForCause /\ AsAsked

Emitted == pc \in {"answered", "refused"} =>
   Emit([calc |-> calc, req |-> req, out |-> pc, eff |-> IF pc = "answered" THEN eff ELSE <<>>, bsq |-> pc = "answered" /\ Bsq(eff), prints |-> pc = "answered" /\ Prints(calc, eff)])

\* c, the options both requests share, the option and its two values
W(c, with, o, v, w) == [calc |-> c, with |-> with, opt |-> o, v |-> v, w |-> w]
Heeded ==
  {W(c, <<>>, o[1], o[2], o[3]) : c \in {"potential", "anomaly", "omega", "trajectory", "link"}, o \in {<<"interp", "linear", "pchip">>, <<"tol", "1e-4", "30">>, <<"bsq", "none", "both">>, <<"eos", "gsw", "jmd95">>}}
  \cup {W(c, <<>>, "grid", "plain", g) : c \in {"potential", "anomaly", "omega", "norms"}, g \in {"dist", "both"}}
  \cup {W(c, <<>>, "pinc", "std", "other") : c \in Surfaces}
  \cup {W(c, <<>>, o[1], o[2], o[3]) : c \in {"veronis"}, o \in {<<"interp", "linear", "pchip">>, <<"bsq", "none", "both">>, <<"eos", "gsw", "jmd95">>, <<"pstart", "top", "mid">>, <<"pref", "0", "2000">>, <<"b", "1", "0.5">>, <<"step", "1", "300">>}}
  \cup {W(c, <<>>, o[1], o[2], o[3]) : c \in {"mixed"}, o \in {<<"diff", "0.03", "0.3">>, <<"pref", "100", "2000">>, <<"bottle", "1", "0">>, <<"interp", "linear", "pchip">>, <<"bsq", "none", "both">>, <<"eos", "gsw", "jmd95">>}}
  \cup {W(c, <<>>, o[1], o[2], o[3]) : c \in {"stabilize"}, o \in {<<"least", "1e-6", "1e-3">>, <<"weight", "10", "1">>}}
  \cup {W("omega", <<"tollrpd", "0">>, "itermax", "10", "2"), W("omega", <<"tollrpd", "1e9">>, "itermin", "1", "3"),
        W("omega", <<>>, "tollrpd", "1e-7", "1e9"), W("omega", <<>>, "tolp", "0", "1e9"), W("omega", <<>>, "pml", "none", "dict"), W("omega", <<>>, "pml", "none", "default"), W("omega", <<>>, "pml", "none", "array"),
        W("omega", <<"pinit", "array">>, "start", "1", "inf"), W("potential", <<>>, "ref", None, "given"), W("anomaly", <<>>, "ref", None, "given"), W("trajectory", <<>>, "pstart", "std", "other")}
HeedInit == /\ calc \in Calcs /\ req = <<>> /\ eff \in {h \in Heeded : h.calc = calc} /\ todo = {} /\ pc = "heed"
HeedSpec == HeedInit /\ [][FALSE]_vars
\* both requests of a witness are well-formed, and their settings differ
HeedInv == /\ \A x \in {eff.v, eff.w} : x \in Table[calc][eff.opt].ok \cup {None}
           /\ eff.v # eff.w
           /\ Emit([heed |-> eff])
=============================================================================
