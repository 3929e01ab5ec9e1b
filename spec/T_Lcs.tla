-------------------------------- MODULE T_Lcs --------------------------------
(* Recorded answers of the searches, judged by Lcs.                          *)
EXTENDS Lcs, TraceBase

Completed(r, F(_)) == IF r.error # "" THEN {"completes"} ELSE Failing(F(r))

LcsVerdict(r) ==
  Completed(r, LAMBDA x : LcsClauses(x.a, x.b, x.pa, x.pb, x.n))
SearchVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Failing(SearchClauses(r.s, r.ps[k], r.every[k], r.single[k]))
               : k \in DOMAIN r.ps }
AutomatonVerdict(r) ==
  Completed(r, LAMBDA x :
    IF "ends" \in DOMAIN x THEN LongAutomatonClauses(x.s, x.all, x.ends, x.accepted, x.refused)
    ELSE AutomatonClauses(x.s, x.suffixes, x.accepted, x.refused))
NWayVerdict(r) ==
  Completed(r, LAMBDA x : IF x.ss = <<>> THEN [nothing |-> x.ps = <<>> /\ x.n = <<>>]
                          ELSE IF Len(x.n) # 1 THEN [length |-> FALSE]
                          ELSE NWayClauses(x.ss, x.ps, x.n[1]))
=============================================================================
