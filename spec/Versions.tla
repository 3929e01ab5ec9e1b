------------------------------- MODULE Versions ------------------------------
(* Version stores (C16-C20).  Versions are numbered 1, 2, ... in the order in *)
(* which they are added.                                                      *)
(*                                                                            *)
(* A history h is a sequence of [base, content]; base = 0: based on nothing.  *)
EXTENDS Seqs, TLC

Version(base, content) == [base |-> base, content |-> content]
BasedOn(h, t) == { i \in DOMAIN h : h[i].base = t }     \* versions with base t
IsTip(h, t) == BasedOn(h, t) = {}

\* t is u or one of those that u was directly or indirectly based on.
RECURSIVE ComesFrom(_, _, _)
ComesFrom(h, u, t) == u = t \/ (u > t /\ ComesFrom(h, h[u].base, t))

IsLinear(h) == \A i \in DOMAIN h : h[i].base = i - 1

-----------------------------------------------------------------------------
(* What a store must answer after history h.  Observations:                   *)
(*   gets: list of << version, content >> (content 0: nothing);               *)
(*   has: list of << version, whether it is there >>; those not in h stand   *)
(*   for tags never added or not yet; infos: list of [v, known, base, tokens,        *)
(*   changes, verbatim, delta] with sizes of contents in size.                *)
GetClauses(h, gets) ==
  [retrieved |-> \A i \in DOMAIN gets :
     gets[i][2] = IF gets[i][1] \in DOMAIN h THEN h[gets[i][1]].content ELSE 0]

HasClauses(h, has) ==
  [members |-> \A i \in DOMAIN has : has[i][2] = IF has[i][1] \in DOMAIN h THEN 1 ELSE 0]

InfoClauses(h, infos, size) ==
  [known    |-> \A i \in DOMAIN infos : infos[i].known <=> infos[i].v \in DOMAIN h,
   base     |-> \A i \in DOMAIN infos :
                  infos[i].v \in DOMAIN h => infos[i].base = h[infos[i].v].base,
   verbatim |-> \A i \in DOMAIN infos :
                  infos[i].v \in DOMAIN h /\ IsTip(h, infos[i].v) =>
                    infos[i].changes = 0 /\ infos[i].tokens = size[h[infos[i].v].content],
   delta    |-> \A i \in DOMAIN infos :
                  infos[i].v \in DOMAIN h /\ ~IsTip(h, infos[i].v) =>
                    infos[i].changes > 0 \/ size[h[infos[i].v].content] = 0]

\* paths: list of [v, path]; path = <<>> for none.
PathClauses(h, paths) ==
  LET pathOf(t) == { paths[i].path : i \in { j \in DOMAIN paths : paths[j].v = t } } IN
  [unknown |-> \A i \in DOMAIN paths : (paths[i].path = <<>>) <=> paths[i].v \notin DOMAIN h,
   ends    |-> \A i \in DOMAIN paths : LET p == paths[i].path IN
                 p # <<>> => p[Len(p)] = paths[i].v,
   starts  |-> \A i \in DOMAIN paths : LET p == paths[i].path IN
                 p # <<>> => p[1] \in DOMAIN h /\ IsTip(h, p[1])
                            /\ ComesFrom(h, p[1], paths[i].v),
   nested  |-> \A i \in DOMAIN paths : LET p == paths[i].path IN
                 Len(p) > 1 => \A q \in pathOf(p[Len(p) - 1]) : q = SubSeq(p, 1, Len(p) - 1),
   simple  |-> \A i \in DOMAIN paths : LET p == paths[i].path IN
                 Cardinality(Elems(p)) = Len(p)]

\* C19; verbatim: the versions held verbatim; written: those whose deltas were
\* stored by the last addition.
LinearClauses(h, paths) ==
  IF ~IsLinear(h) THEN [linear |-> TRUE]
  ELSE [newestfirst |-> \A i \in DOMAIN paths :
                          paths[i].path # <<>> => paths[i].path[1] = Len(h),
        short |-> \A i \in DOMAIN paths :
                    Len(paths[i].path) * Len(paths[i].path) <= 4 * Len(h)]
RepeatClauses(paths) ==
  [norepeat |-> \A i \in DOMAIN paths : LET p == paths[i].path IN
                  \A k \in 1..(Len(p) - 1) : p[k] # p[k + 1]]
StorageClauses(h, verbatim, written) ==
  [oneverbatim |-> Elems(verbatim) = { t \in DOMAIN h : IsTip(h, t) },
   twodeltas   |-> Cardinality(Elems(written)) <= 2]

-----------------------------------------------------------------------------
(* The spanning forest.  f.parent[t] is 0 for roots; contents of versions are *)
(* found from the root on: verbatim[t] is a root's content (or 0), delta[t]   *)
(* tells how t is made from its parent: << parent's content, content >>.      *)
EmptyForest == [parent |-> <<>>, verbatim |-> <<>>, delta |-> <<>>]

Children(f, t) == { c \in DOMAIN f.parent : f.parent[c] = t }
RECURSIVE Height(_, _)
Height(f, t) == LET cs == Children(f, t) IN
  IF cs = {} THEN 1 ELSE 1 + MaxOf({ Height(f, c) : c \in cs })

RECURSIVE PathTo(_, _)
PathTo(f, t) == IF f.parent[t] = 0 THEN << t >> ELSE Append(PathTo(f, f.parent[t]), t)

\* Down the longest path, the newest child first, to the middle.
BestChild(f, t) ==
  LET cs == Children(f, t)
      top == MaxOf({ Height(f, c) : c \in cs })
  IN MaxOf({ c \in cs : Height(f, c) = top })
RECURSIVE Middle(_, _, _)
Middle(f, t, depth) == IF depth < Height(f, t) THEN Middle(f, BestChild(f, t), depth + 1) ELSE t
SplitOf(f, t) == Middle(f, t, 1)

Retrieve(f, t) ==
  LET p == PathTo(f, t) IN
  FoldLeft(LAMBDA c, v : IF f.delta[v] # <<>> /\ f.delta[v][1] = c THEN f.delta[v][2] ELSE -1,
           f.verbatim[p[1]], Tail(p))

\* The deltas are computed before anything changes.
AddTo(f, base, content) ==
  LET n == Len(f.parent) + 1
      split == IF base = 0 THEN 0 ELSE SplitOf(f, base)
      g == [parent |-> Append(f.parent, 0), verbatim |-> Append(f.verbatim, content),
            delta |-> Append(f.delta, <<>>)]
      edge(e, c) == [e EXCEPT !.parent[c] = n, !.verbatim[c] = 0,
                              !.delta[c] = << content, Retrieve(f, c) >>]
  IN IF base = 0 THEN g
     ELSE IF split = base THEN edge(g, base) ELSE edge(edge(g, split), base)

Rewritten(f, base) == IF base = 0 THEN {} ELSE { SplitOf(f, base), base }
=============================================================================
