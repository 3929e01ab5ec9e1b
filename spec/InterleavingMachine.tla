------------------------- MODULE InterleavingMachine -------------------------
(* What a client may do with several results, in any order.                   *)
EXTENDS Interleaving, TLC, Json
CONSTANTS Calls,      \* kinds of call
          Length,     \* items of each
          MaxSteps, MaxResults, Printing
VARIABLES results, log

Alone == [c \in Calls |-> [i \in 1..Length |-> << c, i >>]]

Init == results = <<>> /\ log = <<>>
Note(what, k) ==
  /\ Len(log) < MaxSteps
  /\ log' = Append(log, << what, k >>)
  /\ IF Printing /\ Len(log') = MaxSteps THEN PrintT("HISTORY " \o ToJson(log')) ELSE TRUE

Call(c) == /\ Len(results) < MaxResults
           /\ results' = Open(results, c)
           /\ Note("call", c)
TakeOne(k) == /\ ~results[k].over
              /\ results' = Take(Alone, results, k)
              /\ Note("take", k)
\* Take all that is left.
RECURSIVE Drain(_, _)
Drain(rs, k) == IF rs[k].over THEN rs ELSE Drain(Take(Alone, rs, k), k)
TakeAll(k) == /\ ~results[k].over
              /\ results' = Drain(results, k)
              /\ Note("drain", k)
\* Take no more.
Drop(k) == /\ ~results[k].over
           /\ results' = [results EXCEPT ![k].over = TRUE]
           /\ Note("drop", k)

Next == \/ \E c \in Calls : Call(c)
        \/ \E k \in DOMAIN results : TakeOne(k) \/ TakeAll(k) \/ Drop(k)
Spec == Init /\ [][Next]_<<results, log>>

\* Whatever the schedule, only a result's own call tells what it gives.
Independent == \A k \in DOMAIN results :
  LET x == results[k] IN x.taken = SubSeq(Alone[x.call], 1, Len(x.taken))
Again == \A j, k \in DOMAIN results :
  results[j].call = results[k].call =>
    \A i \in 1..Min2(Len(results[j].taken), Len(results[k].taken)) :
      results[j].taken[i] = results[k].taken[i]
=============================================================================
