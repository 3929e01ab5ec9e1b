------------------------------ MODULE T_LineDiff -----------------------------
EXTENDS LineDiff, TraceBase

LineDiffVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Failing(LineDiffClauses(r.stream, r.lined[i])) : i \in DOMAIN r.lined }
       \cup UNION { Failing(LineDiffClauses(r.stream, r.consolidated[i])
                            @@ ConsolidatedClauses(r.consolidated[i]))
                    : i \in DOMAIN r.consolidated }
=============================================================================
