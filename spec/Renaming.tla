------------------------------- MODULE Renaming ------------------------------
(* Diffs and merges depend only on which tokens are equal (C12).  A twin of  *)
(* the diff machine works on renamed sequences and follows its splits.       *)
EXTENDS Diff

\* pi is a one-to-one function on tokens.
Rename(s, pi) == [i \in DOMAIN s |-> pi[s[i]]]
RenameItems(items, pi) ==
  [i \in DOMAIN items |-> [items[i] EXCEPT !.t = Rename(@, pi), !.d = Rename(@, pi)]]
Renamings(S) == { pi \in [S -> S] : \A x, y \in S : x # y => pi[x] # pi[y] }

(* What the runs of one computation must have in common.  A run [items,      *)
(* typed, kept] tells the result (with every token replaced by its number),  *)
(* whether all fragments are of the kind of the input, and whether the       *)
(* inputs are as they were.                                                  *)
RunsClauses(runs) ==
  [same       |-> \A i \in DOMAIN runs : runs[i].items = runs[1].items,
   samekind   |-> \A i \in DOMAIN runs : runs[i].typed,
   unmodified |-> \A i \in DOMAIN runs : runs[i].kept]
=============================================================================
