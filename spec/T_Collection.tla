----------------------------- MODULE T_Collection ----------------------------
EXTENDS Collection, TraceBase

\* r.ops: operations with their answers, on the collections 1..r.names; after
\* each one r.ops[i].seen tells what all collections hold (<< c, pairs >>).
CollectionVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE FoldLeft(
    LAMBDA x, o :
      LET after == Effect(x.s, o) IN
      [s |-> after,
       bad |-> x.bad \cup (IF Right(x.s, o) THEN {} ELSE { o.op })
               \cup (IF \A i \in DOMAIN o.seen :
                          LET pairs == o.seen[i][2] IN
                          /\ Len(pairs) = Cardinality(after[o.seen[i][1]])
                          /\ Elems(pairs) = after[o.seen[i][1]]
                          /\ o.seen[i][3] = Len(pairs)
                     THEN {} ELSE { "contents" })],
    [s |-> [c \in 1..r.names |-> {}], bad |-> {}], r.ops).bad
=============================================================================
