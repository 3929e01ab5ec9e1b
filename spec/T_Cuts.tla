-------------------------------- MODULE T_Cuts -------------------------------
(* r.h: a history [base, content]; r.before, r.after as in Cuts; r.cuts: its   *)
(* last addition, cut short in several ways: [failed, gets].                  *)
EXTENDS Cuts, TraceBase
CutsVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Failing(CutClauses(r.h, r.before, r.after, r.cuts[i].failed, r.cuts[i].gets))
               : i \in DOMAIN r.cuts }
=============================================================================
