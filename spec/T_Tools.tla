------------------------------- MODULE T_Tools -------------------------------
EXTENDS Tools, TraceBase

GitVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE Failing(ReadingClauses(r) @@ GitRun(r))

ShownVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE Failing(ReadingClauses(r) @@ ShownClauses(r))

\* Renderings of streams, and runs of tools.
RenderVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE IF r.tool THEN Failing(ReadingClauses(r) @@ ShownClauses(r))
  ELSE UNION { Failing(RenderClauses(r.outs[i], r.items, r.m0, r.m1, Elems(r.esc),
                                     IF r.headed[i] THEN r.header ELSE <<>>))
               : i \in DOMAIN r.outs }
=============================================================================
