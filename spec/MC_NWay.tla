------------------------------- MODULE MC_NWay -------------------------------
(* N-way search on every short list of short sequences.  Tokens include a    *)
(* value that equals a separator's payload: it must not be confused.         *)
EXTENDS SuffixAutomaton
CONSTANTS MaxLists, MaxLen
VARIABLE list
NInit == Init /\ list = <<>>
NNext == /\ UNCHANGED <<text, A>>
         /\ Len(list) < MaxLists
         /\ \E s \in SeqsUpTo(Token, MaxLen) : list' = Append(list, s)
NSpec == NInit /\ [][NNext]_<<text, A, list>>
FindsNWay == list # <<>> => LET r == NWay(list) IN Failing(NWayClauses(list, r[1], r[2])) = {}
=============================================================================
