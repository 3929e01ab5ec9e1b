------------------------------- MODULE T_Serial ------------------------------
EXTENDS Serial, TraceBase

\* Batches of integers, and integers out of range.
IntVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE Failing(IntClauses(r.batch, 256, r.variable))
       \cup Failing([refused |-> \A i \in DOMAIN r.outside : r.outside[i]])
PatchSerialVerdict(r) ==
  IF r.error # "" THEN {"completes"} ELSE Failing(PatchSerialClauses(r.patch, r.back, r.cuts))
=============================================================================
