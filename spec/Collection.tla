------------------------------ MODULE Collection -----------------------------
(* Database collections (C21): each is a mapping from tags to contents.       *)
(* Operations: [op, c (collection), tag, data]; answers:                      *)
(*   get: << data >> or <<>> for an error, in: << 0 or 1 >>, len: << n >>,    *)
(*   iter: the tags, items: the pairs << tag, data >>, and so on.             *)
EXTENDS Seqs, TLC

\* state: a function from names of collections to sets of pairs << tag, data >>,
\* or to NotThere before a collection is created.
Without(m, tag) == { p \in m : p[1] # tag }
Has(m, tag) == \E p \in m : p[1] = tag
DataOf(m, tag) == (CHOOSE p \in m : p[1] = tag)[2]

Effect(s, o) ==
  CASE o.op = "create" -> [s EXCEPT ![o.c] = {}]
    [] o.op \in {"set", "setdefault"} ->
         IF o.op = "setdefault" /\ Has(s[o.c], o.tag) THEN s
         ELSE [s EXCEPT ![o.c] = Without(@, o.tag) \cup { << o.tag, o.data >> }]
    [] o.op \in {"del", "pop"} -> [s EXCEPT ![o.c] = Without(@, o.tag)]
    [] o.op = "update" ->
         [s EXCEPT ![o.c] = { p \in @ : ~\E i \in DOMAIN o.pairs : o.pairs[i][1] = p[1] }
                            \cup Elems(o.pairs)]
    [] o.op = "clear" -> [s EXCEPT ![o.c] = {}]
    [] OTHER -> s

\* The answer that the operation must have; error: whether it raised KeyError.
Right(s, o) ==
  LET m == s[o.c] IN
  CASE o.op = "get" -> IF Has(m, o.tag) THEN ~o.error /\ o.answer = << DataOf(m, o.tag) >>
                       ELSE o.error
    [] o.op = "find" -> ~o.error /\ o.answer = IF Has(m, o.tag) THEN << DataOf(m, o.tag) >>
                                              ELSE <<>>
    [] o.op = "in"  -> ~o.error /\ o.answer = << IF Has(m, o.tag) THEN 1 ELSE 0 >>
    [] o.op = "len" -> ~o.error /\ o.answer = << Cardinality(m) >>
    [] o.op = "iter" -> ~o.error /\ Len(o.answer) = Cardinality(m)
                        /\ Elems(o.answer) = { p[1] : p \in m }
    [] o.op = "items" -> ~o.error /\ Len(o.answer) = Cardinality(m) /\ Elems(o.answer) = m
    [] o.op = "del" -> o.error <=> ~Has(m, o.tag)
    [] o.op = "pop" -> IF Has(m, o.tag) THEN ~o.error /\ o.answer = << DataOf(m, o.tag) >>
                       ELSE o.error
    [] o.op = "setdefault" ->
         ~o.error /\ o.answer = << IF Has(m, o.tag) THEN DataOf(m, o.tag) ELSE o.data >>
    [] OTHER -> ~o.error
=============================================================================
