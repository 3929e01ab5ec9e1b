----------------------------- MODULE Interleaving ----------------------------
(* Results that are taken from while others are (C29).  A call gives a result *)
(* whose items are taken one after the other; what they are was settled by    *)
(* the call's own arguments alone.                                            *)
EXTENDS Seqs

\* alone[c]: the items of call c when nothing else is ever called.
\* State: for every call, how often it was made, and for every result that is
\* open, what was taken from it.
Fresh(call) == [call |-> call, taken |-> <<>>, over |-> FALSE]
Open(results, call) == Append(results, Fresh(call))
\* The next item of result k: the next of its call's, or that there is none.
NextOf(alone, results, k) ==
  LET x == results[k] IN
  IF Len(x.taken) < Len(alone[x.call]) THEN << alone[x.call][Len(x.taken) + 1] >> ELSE <<>>
Take(alone, results, k) ==
  LET n == NextOf(alone, results, k) IN
  IF n = <<>> THEN [results EXCEPT ![k].over = TRUE]
  ELSE [results EXCEPT ![k].taken = Append(@, n[1])]

=============================================================================
