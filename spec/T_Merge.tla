------------------------------- MODULE T_Merge -------------------------------
(* Recorded merges, judged by Merge.  d0, d1: the recorded diffs of the       *)
(* branches against the parent; m01, m10: the merge in both orders.          *)
EXTENDS MergeLong, TraceBase

\* The diffs must be usable to say what the branches edited.
DiffsFit(r) ==
  Failing(DiffClauses(r.p, r.b0, r.d0)) \cup Failing(DiffClauses(r.p, r.b1, r.d1)) = {}

MergeVerdict(r, F(_, _)) ==
  IF r.error # "" THEN {"completes"}
  ELSE IF ~DiffsFit(r) THEN {"diffs"}
  ELSE F(EditsOf(r.d0), EditsOf(r.d1))

LongMerge == 300
BoundsVerdict(r) ==
  IF r.error = "" /\ DiffsFit(r) /\ Len(r.p) > LongMerge
  THEN Failing(BoundsLong(r.p, r.d0, r.d1, r.m01)) \cup Failing(BoundsLong(r.p, r.d1, r.d0, r.m10))
  ELSE MergeVerdict(r, LAMBDA E0, E1 :
    Failing(BoundsClauses(r.p, E0, E1, r.m01)) \cup Failing(BoundsClauses(r.p, E1, E0, r.m10)))

CleanVerdict(r) ==
  IF r.error = "" /\ DiffsFit(r) /\ Len(r.p) > LongMerge
  THEN Failing(CleanLong(r.p, r.d0, r.d1, r.m01)) \cup Failing(CleanLong(r.p, r.d1, r.d0, r.m10))
  ELSE MergeVerdict(r, LAMBDA E0, E1 :
    Failing(CleanClauses(r.p, E0, E1, Fragments(r.d0), Fragments(r.d1), r.m01))
    \cup Failing(CleanClauses(r.p, E1, E0, Fragments(r.d1), Fragments(r.d0), r.m10)))

SymmetryVerdict(r) ==
  IF r.error # "" THEN {"completes"} ELSE Failing(SymmetryClauses(r.m01, r.m10))

FormVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE Failing(FormClauses(r.m01)) \cup Failing(FormClauses(r.m10))

\* text: what the merge must consist of.
TrivialVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Failing(WholeClauses(r.text, r.merges[i])) : i \in DOMAIN r.merges }
=============================================================================
