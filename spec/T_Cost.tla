-------------------------------- MODULE T_Cost -------------------------------
EXTENDS Cost, Seqs, TraceBase
CostVerdict(r) ==
  IF r.error # "" THEN {"completes"} ELSE Failing(CostClauses(r.points, r.peaks, r.times))
=============================================================================
