--------------------------------- MODULE Cuts --------------------------------
(* An addition that is cut short: the process ends or the storage fails on   *)
(* the way (C33).  before, after: the paths of versions before the addition    *)
(* and after it if it had not been cut short.                                 *)
EXTENDS Versions

ParentIn(path) == IF Len(path) < 2 THEN 0 ELSE path[Len(path) - 1]

\* The versions that the addition takes from one parent to another; storage
\* that cannot change two things at once may lose them and what is below them.
Moved(before, after) ==
  { t \in DOMAIN before : ParentIn(before[t]) # 0 /\ ParentIn(after[t]) # ParentIn(before[t]) }
Excused(before, after) ==
  LET m == Moved(before, after) IN { t \in DOMAIN before : Elems(before[t]) \cap m # {} }

\* h: the history with the addition; gets: << version, content >>, some negative
\* number for what could not be retrieved at all.
CutClauses(h, before, after, failed, gets) ==
  [earlier |-> \A i \in DOMAIN gets : LET t == gets[i][1] IN
     t < Len(h) /\ t \notin Excused(before, after) => gets[i][2] = h[t].content,
   whole   |-> ~failed => \A i \in DOMAIN gets : gets[i][2] = h[gets[i][1]].content]
=============================================================================
