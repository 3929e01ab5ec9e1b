-------------------------------- MODULE Diff ---------------------------------
(* Diffs (C01, C02) and the patches made of them (C03).                      *)
(*                                                                           *)
(* A diff is a sequence of items [k, t, d].  k = 0: t = d is unchanged text; *)
(* k = 1: d was replaced by t.                                               *)
(* A patch is a sequence of items [k, t, s, e].  k = 0: the span s..e of the *)
(* sequence it applies to; k = 1: the tokens t.                              *)
EXTENDS Lcs, TLC

Keep(t)      == [k |-> 0, t |-> t, d |-> t]
Change(t, d) == [k |-> 1, t |-> t, d |-> d]

New(items) == Flat([i \in DOMAIN items |-> items[i].t])
Old(items) == Flat([i \in DOMAIN items |-> items[i].d])

NormalForm(items) ==
  [nonempty  |-> \A i \in DOMAIN items : items[i].t # <<>> \/ items[i].d # <<>>,
   alternate |-> \A i \in 1..(Len(items) - 1) : items[i].k # items[i + 1].k]

DiffClauses(a, b, items) ==
  [modified |-> New(items) = b, original |-> Old(items) = a] @@ NormalForm(items)

\* The items rebuild both sequences at least as far as lengths go.
Fitting(a, b, items) ==
  /\ FoldLeft(LAMBDA n, x : n + Len(x.d), 0, items) = Len(a)
  /\ FoldLeft(LAMBDA n, x : n + Len(x.t), 0, items) = Len(b)
  /\ \A i \in DOMAIN items : items[i].k = 0 => Len(items[i].t) = Len(items[i].d)

\* oa[i], ob[i]: where item i starts in a and in b.
Offsets(lens) == FoldLeft(LAMBDA o, n : Append(o, o[Len(o)] + n), <<0>>, lens)

\* C02 for the items lo..hi, which lie between positions of a and b.  Which of
\* several longest runs is split first makes no difference.
RECURSIVE KeptIn(_, _, _, _, _, _, _)
KeptIn(a, b, items, oa, ob, lo, hi) ==
  LET sa == Slice(a, oa[lo], oa[hi + 1])
      sb == Slice(b, ob[lo], ob[hi + 1])
      keeps == { i \in lo..hi : items[i].k = 0 }
  IN IF keeps = {} THEN Elems(sa) \cap Elems(sb) = {}
     ELSE LET n == MaxOf({ Len(items[i].t) : i \in keeps })
              x == MinOf({ i \in keeps : Len(items[i].t) = n })
          IN /\ NoCommonRun(sa, sb, n + 1)
             /\ KeptIn(a, b, items, oa, ob, lo, x - 1)
             /\ KeptIn(a, b, items, oa, ob, x + 1, hi)

LongestKept(a, b, items) ==
  LET oa == Offsets([i \in DOMAIN items |-> Len(items[i].d)])
      ob == Offsets([i \in DOMAIN items |-> Len(items[i].t)])
  IN KeptIn(a, b, items, oa, ob, 1, Len(items))

KeepClauses(a, b, items) ==
  IF ~Fitting(a, b, items) THEN [rebuilds |-> FALSE]
  ELSE [longestkept  |-> LongestKept(a, b, items),
        equalsame    |-> a = b => \A i \in DOMAIN items : items[i].k = 0,
        nothingshared |-> \A i \in DOMAIN items :
                            items[i].k = 1 => Elems(items[i].t) \cap Elems(items[i].d) = {}]

\* One diff of a and b: of the longest common runs the first of a is split at.
RECURSIVE DiffOf(_, _)
DiffOf(a, b) ==
  LET n == LcsLength(a, b) IN
  IF n = 0 THEN IF a = <<>> /\ b = <<>> THEN <<>> ELSE << Change(b, a) >>
  ELSE LET i == MinOf(UNION { Occurrences(v, a) : v \in Windows(a, n) \cap Windows(b, n) })
           w == Slice(a, i, i + n)
           j == MinOf(Occurrences(w, b))
       IN DiffOf(Slice(a, 0, i), Slice(b, 0, j)) \o << Keep(w) >>
          \o DiffOf(Slice(a, i + n, Len(a)), Slice(b, j + n, Len(b)))

-----------------------------------------------------------------------------
(* Patches.                                                                  *)
SpansFit(version, patch) ==
  LET spans == SelectSeq(patch, LAMBDA x : x.k = 0) IN
  /\ \A i \in DOMAIN spans : 0 <= spans[i].s /\ spans[i].s <= spans[i].e
                             /\ spans[i].e <= Len(version)
  /\ \A i \in 1..(Len(spans) - 1) : spans[i].e <= spans[i + 1].s

Apply(version, patch) ==
  Flat([i \in DOMAIN patch |-> IF patch[i].k = 0 THEN Slice(version, patch[i].s, patch[i].e)
                               ELSE patch[i].t])

\* applied: all results the code gave for applying the patch.
PatchClauses(version, patch, target, applied) ==
  IF ~SpansFit(version, patch) THEN [spans |-> FALSE]
  ELSE [result  |-> Apply(version, patch) = target,
        applied |-> \A i \in DOMAIN applied : applied[i] = target]

\* The patches of a diff whose items are located by their offsets.
ForwardPatch(items) ==
  LET oa == Offsets([i \in DOMAIN items |-> Len(items[i].d)]) IN
  [i \in DOMAIN items |-> [k |-> items[i].k, t |-> items[i].t, s |-> oa[i], e |-> oa[i + 1]]]
ReversePatch(items) ==
  LET ob == Offsets([i \in DOMAIN items |-> Len(items[i].t)]) IN
  [i \in DOMAIN items |-> [k |-> items[i].k, t |-> items[i].d, s |-> ob[i], e |-> ob[i + 1]]]

=============================================================================
