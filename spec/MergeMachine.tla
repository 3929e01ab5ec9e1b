---------------------------- MODULE MergeMachine -----------------------------
(* Merges of all pairs of edit scripts of a small parent.                    *)
EXTENDS MergeLong, Renaming
CONSTANTS ParentLen,  \* the parent is <<1, ..., ParentLen>>
          Words       \* what may be inserted
VARIABLES parent, d0, d1,   \* the diffs of the branches against the parent
          m                 \* the state of the merge

TinyWords == { <<>>, <<8>>, <<9>> }
SmallWords == { <<>>, <<8>>, <<9>>, <<1>> }
MoreWords == { <<>>, <<8>>, <<9>>, <<1>>, <<8, 9>>, <<2, 8>> }

\* All diffs of p from position i on, with inserted text from Words.  In a
\* change nothing that is inserted is among what is deleted.  last: the kind of
\* the item in front (2 for none).
RECURSIVE DiffsFrom(_, _, _)
DiffsFrom(p, i, last) ==
  LET rest(j, k) == DiffsFrom(p, j, k)
      keeps == UNION { { << Keep(Slice(p, i, j)) >> \o x : x \in rest(j, 0) }
                       : j \in (i + 1)..Len(p) }
      changes == UNION { UNION { { << Change(w, Slice(p, i, j)) >> \o x : x \in rest(j, 1) }
                                 : w \in { v \in Words : (v # <<>> \/ j > i)
                                           /\ Elems(v) \cap Elems(Slice(p, i, j)) = {} } }
                         : j \in i..Len(p) }
  IN (IF i = Len(p) THEN {<<>>} ELSE {})
     \cup (IF last # 0 THEN keeps ELSE {})
     \cup (IF last # 1 THEN changes ELSE {})

Init == /\ parent \in { [i \in 1..n |-> i] : n \in 0..ParentLen }
        /\ d0 \in DiffsFrom(parent, 0, 2)
        /\ d1 \in DiffsFrom(parent, 0, 2)
        /\ m = Start(Fragments(d0), Fragments(d1))

Live == m.f # <<>> /\ m.g # <<>>
X == Head(m.f)
Y == Head(m.g)
Step == ~Done(m) /\ m' = MergeStep(m) /\ UNCHANGED <<parent, d0, d1>>

\* One action per case of the code, for the coverage.
BothCopy     == Live /\ X.copy /\ Y.copy /\ Step
GoesOn       == Live /\ m.in /\ ~(X.copy /\ Y.copy) /\ Step
BothChange   == Live /\ ~m.in /\ ~X.copy /\ ~Y.copy /\ Step
OneChanges   == Live /\ ~m.in /\ X.copy # Y.copy /\ Step
RestFollows  == ~Live /\ Step

Next == BothCopy \/ GoesOn \/ BothChange \/ OneChanges \/ RestFollows
Spec == Init /\ [][Next]_<<parent, d0, d1, m>>

Items   == Consolidate(m.out)
Flipped == Merged(Fragments(d1), Fragments(d0))
E0 == EditsOf(d0)
E1 == EditsOf(d1)

Form == Done(m) => Failing(FormClauses(Items)) = {}
Bounds == Done(m) => Failing(BoundsClauses(parent, E0, E1, Items)) = {}
CleanExactly == Done(m) =>
  Failing(CleanClauses(parent, E0, E1, Fragments(d0), Fragments(d1), Items)) = {}
LongSame == m = Start(Fragments(d0), Fragments(d1)) => Same(parent, d0, d1)
Symmetric == Done(m) => Failing(SymmetryClauses(Items, Flipped)) = {}
Trivial == Done(m) =>
  /\ E0 = {} => First(Items) = New(d1) /\ Clean(Items)
  /\ E1 = {} => First(Items) = New(d0) /\ Clean(Items)
  /\ d0 = d1 => First(Items) = New(d0) /\ Clean(Items)

\* C12: the merge of renamed branches is the renamed merge.
Rotated == [x \in 1..9 |-> (x % 9) + 1]
Equivariant == Done(m) =>
  RenameItems(Items, Rotated)
    = Merged(Fragments(RenameItems(d0, Rotated)), Fragments(RenameItems(d1, Rotated)))
=============================================================================
