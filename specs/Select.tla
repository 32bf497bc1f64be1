------------------------------- MODULE Select -------------------------------
(* Which surface do the arguments (ref, isoval, pin_cast, pin_p) of a potential
   or anomaly surface ask for, and where is it (C02).

   Toy equation of state rho - 1000 = s (1 + p/8) - t.  Arguments are <<>> when
   omitted.  The order of precedence is the documented one:
     ref & isoval        -> used as given, pin ignored
     ref & pin           -> isovalue read at the pin
     pin                 -> reference and isovalue read at the pin
     (an anomaly reference with a missing element counts as omitted)
     anything else       -> error                                            *)
EXTENDS Cast
CONSTANTS Kind, Oceans, Refs, Isos, PinCasts, PinPs
VARIABLES oc, ref, iso, pinc, pinp, uref, uiso, pinned, surf, pc
vars == <<oc, ref, iso, pinc, pinp, uref, uiso, pinned, surf, pc>>
Omit == <<>>
Partial == <<Zero, Zero, Zero>>        \* an anomaly reference with a missing element
Has(x) == x # Omit
HasRef == ref # Omit /\ ref # Partial
HasPin == Has(pinc) /\ Has(pinp)

Blk(c) == CastBlock(c.s, c.p)
PC == oc[pinc[1]]
PinIn == HasPin /\ InBlk(PC.p, Blk(PC), pinp)
PinS == PLAt(PC.s, PC.p, Blk(PC), pinp)
PinT == PLAt(PC.t, PC.p, Blk(PC), pinp)
Rho(s, t, p) == RSub(RMul(s, RAdd(R(1), Norm1(p, 8))), t)     \* minus 1000

\* property of the data of cast c under reference r (potential: <<p>>, anomaly: <<s0, t0>>)
Prop(c, r, i) == IF Kind = "potential" THEN Rho(R(c.s[i]), R(c.t[i]), r[1])
                 ELSE RSub(Rho(R(c.s[i]), R(c.t[i]), R(c.p[i])), Rho(r[1], r[2], R(c.p[i])))
Vals(c, r, v) == [i \in Blk(c)[1]..Blk(c)[2] |-> RSub(Prop(c, r, i), v)]

Init == /\ oc \in Oceans /\ ref \in Refs /\ iso \in Isos /\ pinc \in PinCasts /\ pinp \in PinPs
        /\ uref = Omit /\ uiso = Omit /\ pinned = FALSE /\ surf = <<>> /\ pc = "choose"
Keep == UNCHANGED <<oc, ref, iso, pinc, pinp>>
\* pin outside its cast: no reference, no isovalue, no surface there
Choose ==
  /\ pc = "choose" /\ Keep /\ UNCHANGED surf
  /\ \/ HasRef /\ Has(iso) /\ uref' = ref /\ uiso' = iso /\ pinned' = FALSE /\ pc' = "solve"
     \/ /\ ~Has(iso) /\ HasPin /\ PinIn /\ pinned' = TRUE /\ pc' = "solve"
        /\ uref' = IF HasRef THEN ref ELSE IF Kind = "potential" THEN <<pinp>> ELSE <<PinS, PinT>>
        /\ uiso' = IF Kind = "potential" THEN Rho(PinS, PinT, uref'[1])
                   ELSE RSub(Rho(PinS, PinT, pinp), Rho(uref'[1], uref'[2], pinp))
     \/ ~Has(iso) /\ HasPin /\ ~PinIn /\ pinned' = TRUE /\ pc' = "nowhere" /\ UNCHANGED <<uref, uiso>>
     \/ ~(HasRef /\ Has(iso)) /\ ~(~Has(iso) /\ HasPin) /\ pc' = "error" /\ UNCHANGED <<uref, uiso, pinned>>
Solve == /\ pc = "solve" /\ Keep /\ UNCHANGED <<uref, uiso, pinned>> /\ pc' = "done"
         /\ surf' = [n \in DOMAIN oc |-> IF Usable(Blk(oc[n])) THEN RZeros(Vals(oc[n], uref, uiso), oc[n].p, Blk(oc[n])) ELSE {}]
Next == Choose \/ Solve
Spec == Init /\ [][Next]_vars

\* exactly one choice is enabled
OneChoice == pc = "choose" => Cardinality({x \in 1..3 :
   \/ x = 1 /\ HasRef /\ Has(iso)
   \/ x = 2 /\ ~Has(iso) /\ HasPin
   \/ x = 3 /\ ~(HasRef /\ Has(iso)) /\ ~(~Has(iso) /\ HasPin)}) = 1
PinIgnored == pc = "done" /\ HasRef /\ Has(iso) => uref = ref /\ uiso = iso /\ ~pinned
\* a pinned surface passes through the pin
ThroughPin == pc = "done" /\ pinned => \E z \in surf[pinc[1]] : RLe(z[1], pinp) /\ RLe(pinp, z[2])
ZeroAnomaly == pc = "done" /\ pinned /\ Kind = "anomaly" /\ ~HasRef => uiso = Zero
Inv == OneChoice /\ PinIgnored /\ ThroughPin /\ ZeroAnomaly
Emitted == pc \in {"done", "error", "nowhere"} =>
  Emit([oc |-> oc, ref |-> ref, iso |-> iso, pinc |-> pinc, pinp |-> pinp, out |-> pc, uref |-> uref, uiso |-> uiso, pinned |-> pinned,
        surf |-> [n \in DOMAIN surf |-> SetToSeqR(surf[n])],
        must |-> [n \in DOMAIN surf |-> Usable(Blk(oc[n])) /\
                  LET v == Vals(oc[n], uref, uiso) IN RSgn(v[Blk(oc[n])[1]]) * RSgn(v[Blk(oc[n])[2]]) < 0]])
=============================================================================
