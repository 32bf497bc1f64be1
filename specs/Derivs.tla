------------------------------- MODULE Derivs -------------------------------
(* Partial derivatives of an equation of state (C17): a node is a multi-index
   <<i, j, k>> (orders in S, T, p); differentiating moves along one axis.  The
   function at a node does not depend on the order of differentiation, so a node
   is named by its sorted word.                                               *)
EXTENDS Util
CONSTANT MaxOrder
VARIABLES ix, word
vars == <<ix, word>>
Letter == <<"s", "t", "p">>
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE Rep(c, n - 1) \o c
Name(x) == Rep("s", x[1]) \o Rep("t", x[2]) \o Rep("p", x[3])
Order(x) == x[1] + x[2] + x[3]
Count(w, v) == Cardinality({i \in DOMAIN w : w[i] = v})
Init == ix = <<0, 0, 0>> /\ word = <<>>
Diff(v) == /\ Order(ix) < MaxOrder /\ ix' = [ix EXCEPT ![v] = @ + 1] /\ word' = Append(word, v)
Next == \E v \in 1..3 : Diff(v)
Spec == Init /\ [][Next]_vars
Commute == \A v \in 1..3 : ix[v] = Count(word, v)
Inv == Commute
Emitted == \A v \in 1..3 : Order(ix) < MaxOrder =>
   Emit([from |-> Name(ix), by |-> Letter[v], to |-> Name([ix EXCEPT ![v] = @ + 1])])
=============================================================================
