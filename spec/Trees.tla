--------------------------------- MODULE Trees -------------------------------
(* The two trees of the code.  Both keep, besides the parents, the children   *)
(* and heights, and update them as versions are moved.                        *)
EXTENDS Versions

\* In memory: a list of children per node.
EmptyMem == [parent |-> <<>>, children |-> <<>>, height |-> <<>>, size |-> <<>>]
MemAdd(m) == [parent |-> Append(m.parent, 0), children |-> Append(m.children, <<>>),
              height |-> Append(m.height, 1), size |-> Append(m.size, 1)]
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Highest(s) == FoldLeft(LAMBDA x, y : Max2(x, y), 0, s)
RECURSIVE MemUpdate(_, _)
MemUpdate(m, t) ==
  IF t = 0 THEN m
  ELSE LET cs == m.children[t]
           g == [m EXCEPT !.height[t] = 1 + Highest([i \in DOMAIN cs |-> m.height[cs[i]]]),
                          !.size[t] = 1 + Sum([i \in DOMAIN cs |-> m.size[cs[i]]])]
       IN MemUpdate(g, m.parent[t])
MemMove(m, t, to) ==
  LET from == m.parent[t]
      a == IF from = 0 THEN m
           ELSE [m EXCEPT !.children[from] = SelectSeq(@, LAMBDA c : c # t)]
      b == [a EXCEPT !.parent[t] = to, !.children[to] = Append(@, t)]
  IN MemUpdate(MemUpdate(b, to), from)
RECURSIVE MemWalk(_, _, _)
MemWalk(m, t, depth) ==
  IF depth >= m.height[t] THEN t
  ELSE LET cs == Elems(m.children[t])
           top == MaxOf({ m.height[c] : c \in cs })
       IN MemWalk(m, MaxOf({ c \in cs : m.height[c] = top }), depth + 1)
MemSplit(m, t) == MemWalk(m, t, 1)

\* In the database: two slots for children.
EmptyDB == [parent |-> <<>>, slot |-> <<>>, height |-> <<>>, size |-> <<>>]
DBAdd(d) == [parent |-> Append(d.parent, 0), slot |-> Append(d.slot, << 0, 0 >>),
             height |-> Append(d.height, 1), size |-> Append(d.size, 1)]
DBKids(d, t) == { d.slot[t][k] : k \in {1, 2} } \ {0}
RECURSIVE DBUpdate(_, _)
DBUpdate(d, t) ==
  IF t = 0 THEN d
  ELSE LET cs == d.slot[t]
           value(f, c) == IF c = 0 THEN 0 ELSE f[c]
           g == [d EXCEPT !.height[t] = 1 + Max2(value(d.height, cs[1]), value(d.height, cs[2])),
                          !.size[t] = 1 + value(d.size, cs[1]) + value(d.size, cs[2])]
       IN DBUpdate(g, d.parent[t])
DBMove(d, t, to) ==
  LET from == d.parent[t]
      a == IF from = 0 THEN d
           ELSE [d EXCEPT !.slot[from] = [k \in {1, 2} |-> IF @[k] = t THEN 0 ELSE @[k]]]
      free == IF a.slot[to][1] = 0 THEN 1 ELSE 2
      b == [a EXCEPT !.parent[t] = to, !.slot[to][free] = t]
  IN DBUpdate(DBUpdate(b, from), to)
RECURSIVE DBWalk(_, _, _)
DBWalk(d, t, depth) ==
  IF depth >= d.height[t] THEN t
  ELSE LET cs == DBKids(d, t)
           top == MaxOf({ d.height[c] : c \in cs })
       IN DBWalk(d, MaxOf({ c \in cs : d.height[c] = top }), depth + 1)
DBSplit(d, t) == DBWalk(d, t, 1)

\* A tree of either kind after the addition of a version.
MemGrow(m, base) ==
  LET n == Len(m.parent) + 1
      split == IF base = 0 THEN 0 ELSE MemSplit(m, base)
      a == MemAdd(m)
      b == IF base # 0 /\ split # base THEN MemMove(a, split, n) ELSE a
  IN IF base # 0 THEN MemMove(b, base, n) ELSE b
DBGrow(d, base) ==
  LET n == Len(d.parent) + 1
      split == IF base = 0 THEN 0 ELSE DBSplit(d, base)
      a == DBAdd(d)
      b == IF base # 0 /\ split # base THEN DBMove(a, split, n) ELSE a
  IN IF base # 0 THEN DBMove(b, base, n) ELSE b

\* C20: the answers of two trees; ins[i], paths[i] ... as in Versions, splits: list of
\* << version, split >> (0 for a tag unknown).
SameAnswers(x, y) ==
  [samemembers |-> x.has = y.has, samepaths |-> x.paths = y.paths,
   samesplits  |-> x.splits = y.splits, samebases |-> x.bases = y.bases]
TreeClauses(h, x) ==
  HasClauses(h, x.has) @@ PathClauses(h, x.paths)
  @@ [bases |-> \A i \in DOMAIN x.bases : x.bases[i][2] = h[x.bases[i][1]].base]
=============================================================================
