--------------------------- MODULE SuffixAutomaton ---------------------------
(* The suffix automaton as gaspra builds it: online, one token at a time.   *)
(* A node is [len, link, next, first]: the length of its longest string,     *)
(* its suffix link (0 for the root's), its transitions (a set of <<token,    *)
(* node>> pairs) and the end position of its first occurrence.  Node 1 is    *)
(* the root.                                                                 *)
EXTENDS Lcs, TLC

Node(l, k, t, f) == [len |-> l, link |-> k, next |-> t, first |-> f]

EmptyAutomaton == [node |-> << Node(0, 0, {}, 0) >>, last |-> 1]

Has(node, p, t) == \E e \in node[p].next : e[1] = t
To(node, p, t) == (CHOOSE e \in node[p].next : e[1] = t)[2]
Set(node, p, t, q) ==
  [node EXCEPT ![p].next = { e \in @ : e[1] # t } \cup { <<t, q>> }]

\* Follow suffix links from p, adding a transition to `new`, up to a node that
\* has a transition for t already.
RECURSIVE Walk(_, _, _, _)
Walk(node, p, t, new) ==
  IF p = 0 \/ Has(node, p, t) THEN <<node, p>>
  ELSE Walk(Set(node, p, t, new), node[p].link, t, new)

\* Follow suffix links from p, leading transitions to q to the clone instead.
RECURSIVE Redirect(_, _, _, _, _)
Redirect(node, p, t, q, clone) ==
  IF p = 0 \/ ~Has(node, p, t) \/ To(node, p, t) # q THEN node
  ELSE Redirect(Set(node, p, t, clone), node[p].link, t, q, clone)

Extend(A, t) ==
  LET new == Len(A.node) + 1
      l   == A.node[A.last].len + 1
      w   == Walk(Append(A.node, Node(l, 1, {}, l)), A.last, t, new)
      n   == w[1]
      p   == w[2]
  IN IF p = 0 THEN [node |-> n, last |-> new]
     ELSE LET q == To(n, p, t) IN
          IF n[q].len = n[p].len + 1
          THEN [node |-> [n EXCEPT ![new].link = q], last |-> new]
          ELSE LET clone == Len(n) + 1
                   m == Append(n, Node(n[p].len + 1, n[q].link, n[q].next, n[q].first))
                   r == [m EXCEPT ![q].link = clone, ![new].link = clone]
               IN [node |-> Redirect(r, p, t, q, clone), last |-> new]

Build(s) == FoldLeft(Extend, EmptyAutomaton, s)

\* The node reached with w, 0 if there is none.
Run(A, w) ==
  FoldLeft(LAMBDA p, t : IF p # 0 /\ Has(A.node, p, t) THEN To(A.node, p, t) ELSE 0,
           1, w)

RECURSIVE LinkPath(_, _)
LinkPath(A, p) == IF p = 0 THEN {} ELSE {p} \cup LinkPath(A, A.node[p].link)
Terminals(A) == LinkPath(A, A.last)

\* The nodes below p in the tree of suffix links.
Below(A, p) == { q \in DOMAIN A.node : p \in LinkPath(A, q) }

\* The searches, as the code does them.
FindFirst(A, w) ==
  LET p == Run(A, w) IN IF p = 0 THEN <<>> ELSE << A.node[p].first - Len(w) >>
FindAll(A, w) ==
  LET p == Run(A, w) IN
  IF p = 0 THEN {} ELSE { A.node[q].first - Len(w) : q \in Below(A, p) }

RECURSIVE Back(_, _, _, _)
Back(A, p, len, t) ==       \* drop tokens in front until t can follow
  IF Has(A.node, p, t) THEN <<To(A.node, p, t), len + 1>>
  ELSE IF A.node[p].link = 0 THEN <<p, 0>>
  ELSE Back(A, A.node[p].link, A.node[A.node[p].link].len, t)

FindLcs(A, b) ==
  LET step(st, i) ==
        LET m == Back(A, st.p, st.len, b[i]) IN
        [p |-> m[1], len |-> m[2],
         best |-> IF m[2] > st.best[3] THEN <<A.node[m[1]].first, i, m[2]>> ELSE st.best]
      f == FoldLeft(step, [p |-> 1, len |-> 0, best |-> <<0, 0, 0>>],
                    [i \in 1..Len(b) |-> i])
  IN <<f.best[1] - f.best[3], f.best[2] - f.best[3], f.best[3]>>

\* N-way: one automaton for all sequences, each followed by its own separator.
Separator(k) == <<"separator", k>>
Joined(ss) == Flat([k \in DOMAIN ss |-> [i \in 1..Len(ss[k]) |-> <<"token", ss[k][i]>>]
                                        \o << Separator(k) >>])
\* The sequences in which the strings of node p occur: those whose separators
\* can be read first after them.
RECURSIVE SharedBy(_, _)
SharedBy(A, p) ==
  UNION { IF e[1][1] = "separator" THEN {e[1][2]} ELSE SharedBy(A, e[2])
          : e \in A.node[p].next }
NWay(ss) ==
  LET A    == Build(Joined(ss))
      full == { p \in DOMAIN A.node : SharedBy(A, p) = DOMAIN ss }
      best == CHOOSE p \in full : \A q \in full : A.node[q].len <= A.node[p].len
      n    == A.node[best].len
      pos  == { A.node[q].first - n : q \in Below(A, best) }
      from == [k \in DOMAIN ss |-> SumLen(SubSeq(ss, 1, k - 1)) + k - 1]
  IN <<[k \in DOMAIN ss |-> MinOf({ x \in pos : x >= from[k] }) - from[k]], n>>

-----------------------------------------------------------------------------
(* The machine: tokens arrive one at a time.                                 *)
CONSTANTS Token,      \* tokens
          MaxText,    \* longest text built
          MaxOther    \* longest other sequence searched for
VARIABLES text, A

Init == text = <<>> /\ A = EmptyAutomaton
Next == \E t \in Token :
          /\ Len(text) < MaxText
          /\ text' = Append(text, t)
          /\ A' = Extend(A, t)
Spec == Init /\ [][Next]_<<text, A>>

Words == SeqsUpTo(Token, MaxOther)

\* C06: exactly the substrings are accepted, and exactly the suffixes end in
\* a terminal node, each in one way.
RecognisesSubstrings ==
  \A w \in Words \cup Substrings(text) : (Run(A, w) # 0) <=> (w \in Substrings(text))
RecognisesSuffixes ==
  \A w \in Substrings(text) :
     (Run(A, w) \in Terminals(A)) <=> OccursAt(w, text, Len(text) - Len(w))
SmallEnough == Len(A.node) <= Max2(2 * Len(text), 1)

\* C05
FindsOccurrences ==
  \A w \in Words \cup Substrings(text) :
     /\ FindAll(A, w) = Occurrences(w, text)
     /\ FindFirst(A, w) = IF Occurrences(w, text) = {} THEN <<>>
                          ELSE << MinOf(Occurrences(w, text)) >>

\* C04
FindsLcs ==
  \A b \in Words : LET r == FindLcs(A, b) IN Failing(LcsClauses(text, b, r[1], r[2], r[3])) = {}
=============================================================================
