------------------------------ MODULE T_Renaming -----------------------------
(* The same computation on several kinds of sequence and repeatedly.         *)
EXTENDS Renaming, TraceBase

RunsVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Failing(RunsClauses(r.groups[i])) : i \in DOMAIN r.groups }
=============================================================================
