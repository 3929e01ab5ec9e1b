----------------------------- MODULE CostMachine -----------------------------
(* The online construction with its work counted: the nodes visited along     *)
(* suffix links.  Amortised over a text, the work per token is bounded        *)
(* although single tokens may take work in proportion to the text.            *)
EXTENDS SuffixAutomaton, Cost
VARIABLE work

RECURSIVE WalkSteps(_, _, _)
WalkSteps(node, p, t) ==
  IF p = 0 THEN 0 ELSE IF Has(node, p, t) THEN 1 ELSE 1 + WalkSteps(node, node[p].link, t)
RECURSIVE RedirectSteps(_, _, _, _)
RedirectSteps(node, p, t, q) ==
  IF p = 0 \/ ~Has(node, p, t) \/ To(node, p, t) # q THEN 1
  ELSE 1 + RedirectSteps(node, node[p].link, t, q)

\* What extending A by t visits.
ExtendSteps(t) ==
  LET node == Append(A.node, Node(0, 1, {}, 0))
      w == Walk(node, A.last, t, Len(node))
      p == w[2]
  IN WalkSteps(node, A.last, t)
     + (IF p = 0 THEN 0
        ELSE LET q == To(w[1], p, t) IN
             IF w[1][q].len = w[1][p].len + 1 THEN 0 ELSE RedirectSteps(w[1], p, t, q))

\* What searching b visits.
RECURSIVE BackSteps(_, _)
BackSteps(p, t) ==
  IF Has(A.node, p, t) THEN 1 ELSE IF A.node[p].link = 0 THEN 1
  ELSE 1 + BackSteps(A.node[p].link, t)
LcsSteps(b) ==
  FoldLeft(LAMBDA st, t : LET m == Back(A, st.p, st.len, t) IN
                          [p |-> m[1], len |-> m[2], steps |-> st.steps + BackSteps(st.p, t)],
           [p |-> 1, len |-> 0, steps |-> 0], b).steps

CInit == Init /\ work = 0
CNext == \E t \in Token :
           /\ Len(text) < MaxText
           /\ text' = Append(text, t)
           /\ A' = Extend(A, t)
           /\ work' = work + ExtendSteps(t)
CSpec == CInit /\ [][CNext]_<<text, A, work>>

Edges == FoldFunction(LAMBDA x, y : x + y, 0, [p \in DOMAIN A.node |-> Cardinality(A.node[p].next)])
FewStates == Len(A.node) <= MostStates(Len(text))
FewEdges == Edges <= MostEdges(Len(text))
Amortised == work <= 4 * Len(text)
SearchAmortised == \A b \in Words : LcsSteps(b) <= 2 * Len(b)
=============================================================================
