------------------------------- MODULE Graph -------------------------------
(* Graph conversions and the connected-component search (property C14).

   Build  : the neighbour lists are filled edge by edge, in edge order
   Search : breadth-first search from the root through valid nodes
   The state machine is checked against order-free definitions (Reach, Dist)
   and every finished behaviour is emitted to be replayed into the code.     *)
EXTENDS Util
CONSTANTS N,        \* nodes 0..N-1
          EdgeSeqs, \* the edge sequences explored
          Masks     \* the sets of valid nodes explored
VARIABLES edges, good, root, nbr, k, queue, head, seen, pc
vars == <<edges, good, root, nbr, k, queue, head, seen, pc>>
Node == 0..(N - 1)

AllSeqs(n) == SeqsUpTo(Node \X Node, n)
\* for the simulated, larger graphs
RandomSeqs(cnt, len) == {[i \in 1..len |-> <<RandomElement(Node), RandomElement(Node)>>] : x \in 1..cnt}

Init == /\ edges \in EdgeSeqs /\ good \in Masks /\ root \in Node
        /\ nbr = [n \in Node |-> <<>>] /\ k = 1
        /\ queue = <<>> /\ head = 0 /\ seen = {} /\ pc = "build"

Build == /\ pc = "build" /\ k <= Len(edges)
         /\ LET a == edges[k][1]  b == edges[k][2]
                n1 == [nbr EXCEPT ![a] = Append(@, b)]
            IN nbr' = [n1 EXCEPT ![b] = Append(@, a)]
         /\ k' = k + 1
         /\ UNCHANGED <<edges, good, root, queue, head, seen, pc>>

StartSearch == /\ pc = "build" /\ k > Len(edges)
               /\ pc' = "search"
               /\ IF root \in good THEN queue' = <<root>> /\ seen' = {root}
                                   ELSE queue' = <<>> /\ seen' = {}
               /\ UNCHANGED <<edges, good, root, nbr, k, head>>

RECURSIVE Scan(_, _, _)   \* neighbours ns of the popped node, in order
Scan(ns, q, s) == IF ns = <<>> THEN <<q, s>>
                  ELSE LET n == Head(ns)
                       IN IF n \in good /\ n \notin s THEN Scan(Tail(ns), Append(q, n), s \union {n})
                                                      ELSE Scan(Tail(ns), q, s)
Pop == /\ pc = "search" /\ head < Len(queue)
       /\ LET r == Scan(nbr[queue[head + 1]], queue, seen)
          IN queue' = r[1] /\ seen' = r[2]
       /\ head' = head + 1
       /\ UNCHANGED <<edges, good, root, nbr, k, pc>>

Finish == /\ pc = "search" /\ head = Len(queue) /\ pc' = "done"
          /\ UNCHANGED <<edges, good, root, nbr, k, queue, head, seen>>

Next == Build \/ StartSearch \/ Pop \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- order-free definitions ------------------------------------------------
Adj(m, n) == \E i \in 1..Len(edges) : {edges[i][1], edges[i][2]} = {m, n}
RECURSIVE Grow(_, _)      \* all valid nodes within d steps of the root
Grow(S, d) == IF d = 0 THEN S
              ELSE Grow(S \union {n \in good : \E m \in S : Adj(m, n)}, d - 1)
Within(d) == IF root \in good THEN Grow({root}, d) ELSE {}
Reach == Within(N)
Dist(n) == CHOOSE d \in 0..N : n \in Within(d) /\ (d = 0 \/ n \notin Within(d - 1))

Multiplicity(m, n) == Cardinality({i \in 1..Len(edges) : edges[i] = <<m, n>>})
                      + Cardinality({i \in 1..Len(edges) : edges[i] = <<n, m>>})
Weight(i) == 2 * i + 1                       \* distinct edge weights
EdgeVal(i) == 4^(i - 1)                      \* distinct edge values
Mat(m, n) == SumOver([i \in 1..Len(edges) |-> IF edges[i] = <<m, n>> THEN Weight(i) ELSE 0], 1..Len(edges))
             + SumOver([i \in 1..Len(edges) |-> IF edges[i] = <<n, m>> THEN Weight(i) ELSE 0], 1..Len(edges))
AggA(n) == SumOver([i \in 1..Len(edges) |-> IF edges[i][1] = n THEN EdgeVal(i) ELSE 0], 1..Len(edges))
AggB(n) == SumOver([i \in 1..Len(edges) |-> IF edges[i][2] = n THEN EdgeVal(i) ELSE 0], 1..Len(edges))
Div(n) == SumOver([i \in 1..Len(edges) |-> (IF edges[i][1] = n THEN EdgeVal(i) * Weight(i) ELSE 0)
                                          - (IF edges[i][2] = n THEN EdgeVal(i) * Weight(i) ELSE 0)], 1..Len(edges))

\* ---- properties --------------------------------------------------------------
TypeOK == /\ seen \subseteq good /\ Range(queue) = seen /\ head <= Len(queue)
NoRepeat == \A i, j \in 1..Len(queue) : queue[i] = queue[j] => i = j
Sound == pc # "build" => Range(queue) \subseteq Reach
Complete == pc = "done" => Range(queue) = Reach
BFSOrder == pc = "done" => \A i \in 1..(Len(queue) - 1) : Dist(queue[i]) <= Dist(queue[i + 1])
ListsFaithful == pc = "done" => \A m, n \in Node :
    Cardinality({i \in 1..Len(nbr[m]) : nbr[m][i] = n}) = Multiplicity(m, n)
DivConserved == pc = "done" => SumOver([n \in Node |-> Div(n)], Node) = 0
Inv == TypeOK /\ NoRepeat /\ Sound /\ Complete /\ BFSOrder /\ ListsFaithful /\ DivConserved

Emitted == pc = "done" =>
  Emit([n |-> N, a |-> [i \in 1..Len(edges) |-> edges[i][1]], b |-> [i \in 1..Len(edges) |-> edges[i][2]],
        good |-> [i \in 1..N |-> (i - 1) \in good], root |-> root, queue |-> queue,
        nbr |-> [i \in 1..N |-> nbr[i - 1]], w |-> [i \in 1..Len(edges) |-> Weight(i)],
        v |-> [i \in 1..Len(edges) |-> EdgeVal(i)],
        mat |-> [i \in 1..N |-> [j \in 1..N |-> Mat(i - 1, j - 1)]],
        agga |-> [i \in 1..N |-> AggA(i - 1)], aggb |-> [i \in 1..N |-> AggB(i - 1)],
        div |-> [i \in 1..N |-> Div(i - 1)]])
===========================================================================
