------------------------------ MODULE GitMachine -----------------------------
(* The stream of a diff or merge goes through the accumulator of lines, is    *)
(* written in git's form and read again.                                      *)
EXTENDS LineDiffMachine, GitFormat

Into == << 7 >>
From == << 8, 9 >>
RoundTrip == at = "done" =>
  Failing(GitClauses(WriteGit(ConsolidateLines(c.out), Into, From), New(stream), Old(stream),
                     Into, From, \E i \in DOMAIN stream : stream[i].k = 1)) = {}
\* Also in the form that is not consolidated.
RoundTripLines == at = "done" =>
  Failing(GitClauses(WriteGit(c.out, Into, From), New(stream), Old(stream),
                     Into, From, \E i \in DOMAIN stream : stream[i].k = 1)) = {}
=============================================================================
