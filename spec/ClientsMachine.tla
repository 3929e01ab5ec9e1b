---------------------------- MODULE ClientsMachine ---------------------------
(* Several stores on the same storage take turns (C31).  A store that trusts   *)
(* what it remembers would answer from mind instead of h.                     *)
EXTENDS Versions, Json
CONSTANTS Clients, MaxVersions, MaxLooks, Printing
VARIABLES h, f,
          mind,    \* what each has seen: a set of versions
          log      \* additions << client, base >> and looks << client, 0 - version >>
vars == <<h, f, mind, log>>

Init == h = <<>> /\ f = EmptyForest /\ mind = [c \in Clients |-> {}] /\ log = <<>>
Looks == { k \in DOMAIN log : log[k][2] < 0 }
Show == IF Printing /\ Len(h') = MaxVersions THEN PrintT("HISTORY " \o ToJson(log')) ELSE TRUE

Add(c, base) ==
  LET n == Len(h) + 1 IN
  /\ n <= MaxVersions
  /\ h' = Append(h, Version(base, n))
  /\ f' = AddTo(f, base, n)
  /\ mind' = [mind EXCEPT ![c] = @ \cup { << t, Retrieve(f', t) >> : t \in Rewritten(f, base) \cup {n} }]
  /\ log' = Append(log, << c, base >>)
  /\ Show
Look(c, t) ==
  /\ Cardinality(Looks) < MaxLooks
  /\ t \in 1..(Len(h) + 1)     \* also for what is not there yet
  /\ mind' = [mind EXCEPT ![c] = IF t \in DOMAIN h THEN @ \cup { << t, Retrieve(f, t) >> } ELSE @]
  /\ log' = Append(log, << c, -t >>)
  /\ UNCHANGED <<h, f>>
  /\ Show
Next == \E c \in Clients : (\E base \in 0..Len(h) : Add(c, base))
                           \/ (\E t \in 1..(Len(h) + 1) : Look(c, t))
Spec == Init /\ [][Next]_vars

\* Versions never change: what one has seen is what all see later on.
SameForAll == \A c \in Clients : \A x \in mind[c] :
                x[2] = h[x[1]].content /\ Retrieve(f, x[1]) = x[2]
=============================================================================
