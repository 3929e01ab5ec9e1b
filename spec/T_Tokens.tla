------------------------------- MODULE T_Tokens ------------------------------
EXTENDS Tokens, TraceBase

SessionVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE IF r.lines THEN Failing(LineClauses(r))
  ELSE Failing(SessionClauses(r))

\* A history of calls.
CallVerdict(c) ==
  IF c.call = "diff" THEN Failing(TextDiffClauses(c.a, c.b, c.items, c.again))
  ELSE Failing(TextMergeClauses(c.tokenmerge, c.pieces, c.items, c.again))
CallsVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { CallVerdict(r.calls[i]) : i \in DOMAIN r.calls }
=============================================================================
