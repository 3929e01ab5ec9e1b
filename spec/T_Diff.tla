-------------------------------- MODULE T_Diff -------------------------------
(* Recorded diffs and patches, judged by Diff.                               *)
EXTENDS Diff, TraceBase

DiffVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Failing(DiffClauses(r.a, r.b, r.diffs[i])) : i \in DOMAIN r.diffs }
KeepVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Failing(KeepClauses(r.a, r.b, r.diffs[i])) : i \in DOMAIN r.diffs }
PatchVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE Failing(PatchClauses(r.a, r.forward, r.b, r.fresults))
       \cup Failing(PatchClauses(r.b, r.reverse, r.a, r.rresults))

=============================================================================
