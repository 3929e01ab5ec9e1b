------------------------------ MODULE T_Manifest -----------------------------
EXTENDS Manifest, TraceBase

ManifestVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE FoldLeft(
    LAMBDA x, e :
      LET s == AfterManifest(x.s, e)
          based == Append(x.based, e.base)
      IN [s |-> s, based |-> based,
          bad |-> x.bad \cup (IF e.failed THEN {"accepts"} ELSE {})
                  \cup Failing(ManifestClauses(s, e.reads, e.gets, e.bases))
                  \cup Failing([manifestbase |-> \A i \in DOMAIN e.mbases :
                         e.mbases[i][2] = based[e.mbases[i][1]]])],
    [s |-> Nothing, based |-> <<>>, bad |-> {}], r.events).bad

\* C32.  r.events[i].fail: why the addition should fail; "": it should not.
FailuresVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE FoldLeft(
    LAMBDA x, e :
      LET new == [base |-> e.base, entries |-> e.entries, new |-> e.found]
          s == IF e.fail = "" THEN AfterManifest(x.s, new)
               ELSE AfterAttempt(x.s, e, Elems(e.found))
      IN [s |-> s,
          bad |-> x.bad \cup (IF e.fail = "" /\ e.failed THEN {"accepts"} ELSE {})
                  \cup (IF e.fail # "" /\ ~e.failed THEN {"rejects"} ELSE {})
                  \cup (IF e.fail = "" /\ ~e.failed /\ Len(e.found) < Len(e.offered)
                        THEN {"storesall"} ELSE {})
                  \cup Failing(ManifestClauses(s, e.reads, e.items, e.bases))
                  \cup Failing(AttemptClauses(s, e))],
    [s |-> Nothing, bad |-> {}], r.events).bad

=============================================================================
