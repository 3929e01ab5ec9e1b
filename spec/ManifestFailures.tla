--------------------------- MODULE ManifestFailures --------------------------
(* Manifests, with additions that fail on the way and may be repeated (C32).  *)
EXTENDS ManifestMachine
CONSTANT MaxFailures

\* fail: why; at: the entry at which it stops (0: behind the last one).
\*   "missing"     the contents of the entry's item are not given
\*   "unreadable"  they cannot be stored
\*   "used"        the manifest's tag is in use
\*   "itself"      the manifest's tag is that of the entry's item, which is new
\*   "unknown"     there is no such base
\*   "nomanifest"  the base is no manifest: nothing is stored
Failures == { k \in DOMAIN log : log[k].fail # "" }
Attempt(base, c, fail, at) ==
  LET n == Cardinality(s.items)
      entries == EntriesFor(c)
      stops == IF fail = "nomanifest" THEN 1 ELSE IF at = 0 \/ fail = "itself" THEN Len(entries) + 1 ELSE at
      before == SubSeq(entries, 1, stops - 1)
      items == FoldLeft(LAMBDA acc, e : StoreItem(acc, e, base), [f |-> f, number |-> number], before)
      found == { << e[2], e[2] >> : e \in { x \in Elems(before) : x[2] > n } }
  IN /\ Len(log) < MaxManifests
     /\ Cardinality(Failures) < MaxFailures
     /\ fail \in {"missing", "unreadable", "itself"} => at \in DOMAIN entries /\ entries[at][2] > n
                                             /\ \A i \in 1..(at - 1) : entries[i][2] # entries[at][2]
     /\ fail \notin {"missing", "unreadable", "itself"} => at = 0
     /\ fail \in {"unknown", "nomanifest"} => base = 0
     /\ fail = "used" => s.ms # <<>>
     /\ fail = "nomanifest" => s.items # {}
     /\ s' = AfterAttempt(s, [base |-> base, entries |-> entries], found)
     /\ f' = items.f
     /\ number' = items.number
     /\ log' = Append(log, [base |-> base, entries |-> entries, fail |-> fail, at |-> at])
     /\ IF Printing /\ Len(log') = MaxManifests THEN PrintT("HISTORY " \o ToJson(log')) ELSE TRUE

FNext == \E base \in 0..Len(s.ms) :
           LET n == Cardinality(s.items) IN
           \E c \in { x \in Picks(n) : Sensible(x, n) } :
             \/ AddManifest(base, c)
             \/ \E fail \in {"missing", "unreadable", "used", "itself", "unknown", "nomanifest"},
                   at \in 0..Cardinality(Names) : Attempt(base, c, fail, at)
FSpec == Init /\ [][FNext]_vars
=============================================================================
