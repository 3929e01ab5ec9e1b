-------------------------------- MODULE Seqs --------------------------------
(* Sequences, with the zero-based half-open positions that gaspra uses.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* s[i:j] in Python
Slice(s, i, j) == SubSeq(s, i + 1, j)

Elems(s) == { s[i] : i \in DOMAIN s }

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

OccursAt(p, s, i) ==
  /\ i >= 0
  /\ i + Len(p) <= Len(s)
  /\ Slice(s, i, i + Len(p)) = p

Occurrences(p, s) ==
  { i \in 0..(Len(s) - Len(p)) :
      (p = <<>> \/ s[i + 1] = p[1]) /\ Slice(s, i, i + Len(p)) = p }

\* All runs of n consecutive elements.
Windows(s, n) == { Slice(s, i, i + n) : i \in 0..(Len(s) - n) }

Substrings(s) == UNION { Windows(s, n) : n \in 0..Len(s) }

\* All sequences of ss one after the other; long lists are halved, which only
\* is faster.
RECURSIVE FlatOf(_, _, _)
FlatOf(ss, lo, hi) ==
  IF hi - lo < 500 THEN FoldLeft(LAMBDA a, i : a \o ss[i], <<>>, [k \in 1..(hi - lo + 1) |-> lo + k - 1])
  ELSE LET m == (lo + hi) \div 2 IN FlatOf(ss, lo, m) \o FlatOf(ss, m + 1, hi)
Flat(ss) == IF Len(ss) <= 500 THEN FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
            ELSE FlatOf(ss, 1, Len(ss))

\* A growing sequence, kept in parts, which only is faster.
PartSize == 512
Gathered == [parts |-> <<>>, last |-> <<>>]
Put(g, x) == IF Len(g.last) < PartSize THEN [g EXCEPT !.last = Append(@, x)]
             ELSE [parts |-> Append(g.parts, g.last), last |-> << x >>]
AllOf(g) == Flat(Append(g.parts, g.last))

SumLen(ss) == FoldLeft(LAMBDA a, b : a + Len(b), 0, ss)

\* a is a (not necessarily contiguous) subsequence of b.
Embeds(a, b) ==
  Len(a) = FoldLeft(LAMBDA k, x : IF k < Len(a) /\ a[k + 1] = x THEN k + 1 ELSE k,
                    0, b)

SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }

IsIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

\* The set of names of clauses that do not hold.
Failing(clauses) == { c \in DOMAIN clauses : ~clauses[c] }
=============================================================================
