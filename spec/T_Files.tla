-------------------------------- MODULE T_Files ------------------------------
(* Recorded sequences of runs.  r.runs[i].before, .after: the file system.     *)
EXTENDS Files, TraceBase
FilesVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Failing(RunClauses(r.runs[i].before, r.runs[i], r.runs[i].after))
               : i \in DOMAIN r.runs }
       \cup { "between" : i \in { j \in DOMAIN r.runs : j > 1 /\ r.runs[j].before # r.runs[j - 1].after } }
TortureVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE Failing([asmerge |-> r.shown = r.merged,
                untouched |-> r.before = r.after])
=============================================================================
