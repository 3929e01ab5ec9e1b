-------------------------------- MODULE Lcs ---------------------------------
(* What a longest-common-substring search and a substring search must       *)
(* answer (C04, C05, C06, C07), as relations between inputs and answers.     *)
EXTENDS Seqs

\* No run of n tokens is common to a and b.
ShareNoRun(a, b, n) == Windows(a, n) \cap Windows(b, n) = {}

(* The same in linear time for a sequence a of consecutive numbers, which is    *)
(* how long sequences are recorded.                                            *)
IsRamp(a) == a # <<>> /\ \A i \in DOMAIN a : a[i] = a[1] + i - 1

\* << position in a, length >> of the maximal runs of b of at least n tokens
\* that are in the ramp a, in the order of b.
RampRuns(a, b, n) ==
  LET last == a[1] + Len(a) - 1
      ended(c) == IF c.run >= n THEN Append(c.runs, << c.to - c.run + 1 - a[1], c.run >>)
                  ELSE c.runs
      step(c, x) == IF x < a[1] \/ x > last
                    THEN [runs |-> ended(c), run |-> 0, to |-> 0]
                    ELSE IF c.run > 0 /\ x = c.to + 1
                    THEN [c EXCEPT !.run = @ + 1, !.to = x]
                    ELSE [runs |-> ended(c), run |-> 1, to |-> x]
  IN ended(FoldLeft(step, [runs |-> <<>>, run |-> 0, to |-> 0], b))

Long == 1500
NoCommonRun(a, b, n) ==
  IF n = 0 \/ Len(a) + Len(b) <= Long THEN ShareNoRun(a, b, n)
  ELSE IF IsRamp(a) THEN RampRuns(a, b, n) = <<>>
  ELSE IF IsRamp(b) THEN RampRuns(b, a, n) = <<>>
  ELSE ShareNoRun(a, b, n)

\* No run of n tokens is common to all of ss.
AllShareNoRun(ss, n) ==
  ~\E w \in Windows(ss[1], n) : \A k \in DOMAIN ss : w \in Windows(ss[k], n)
\* If they do share one, then also one that begins where a run of one begins.
RampsShareNoRun(ss, n) ==
  LET runs == [k \in DOMAIN ss |-> Elems(RampRuns(ss[1], ss[k], n))]
  IN ~\E r \in UNION { runs[k] : k \in DOMAIN ss } :
        \A k \in DOMAIN ss : \E x \in runs[k] : x[1] <= r[1] /\ r[1] + n <= x[1] + x[2]
NoRunOfAll(ss, n) ==
  IF n > 0 /\ Len(ss[1]) > Long /\ IsRamp(ss[1]) THEN RampsShareNoRun(ss, n)
  ELSE AllShareNoRun(ss, n)

\* The first occurrence of the run of length n at position i of s.
IsFirst(s, i, n) ==
  IF n = 0 THEN i = 0
  ELSE \A j \in 0..(i - 1) : s[j + 1] = s[i + 1] => Slice(s, j, j + n) # Slice(s, i, i + n)

InRange(s, i, n) == i >= 0 /\ n >= 0 /\ i + n <= Len(s)

LcsLength(a, b) ==
  MaxOf({ n \in 0..Min2(Len(a), Len(b)) : Windows(a, n) \cap Windows(b, n) # {} })

LcsClauses(a, b, pa, pb, n) ==
  IF ~(InRange(a, pa, n) /\ InRange(b, pb, n))
  THEN [inrange |-> FALSE]
  ELSE [samerun |-> Slice(a, pa, pa + n) = Slice(b, pb, pb + n),
        longest |-> NoCommonRun(a, b, n + 1),
        firsta  |-> IsFirst(a, pa, n),
        firstb  |-> IsFirst(b, pb, n),
        none    |-> n = 0 => (pa = 0 /\ pb = 0)]

\* ss: the sequences; ps: one position for each; n: the length
NWayClauses(ss, ps, n) ==
  IF Len(ps) # Len(ss) \/ \E k \in DOMAIN ss : ~InRange(ss[k], ps[k], n)
  THEN [inrange |-> FALSE]
  ELSE [samerun |-> \A k \in DOMAIN ss :
                      Slice(ss[k], ps[k], ps[k] + n) = Slice(ss[1], ps[1], ps[1] + n),
        longest |-> NoRunOfAll(ss, n + 1),
        first   |-> \A k \in DOMAIN ss : IsFirst(ss[k], ps[k], n)]

\* every: the list of positions returned; single: a list with the one
\* position returned, or an empty list for "not found".
SearchClauses(s, p, every, single) ==
  LET occ == Occurrences(p, s) IN
  [every   |-> Elems(every) = occ,
   ordered |-> IsIncreasing(every),
   single  |-> IF occ = {} THEN single = <<>> ELSE single = << MinOf(occ) >>]

\* suffixes: the list of suffixes enumerated; accepted, refused: token
\* sequences the automaton accepts or refuses.
AutomatonClauses(s, suffixes, accepted, refused) ==
  LET subs == Substrings(s) IN
  [suffixes |-> Elems(suffixes) = { Slice(s, i, Len(s)) : i \in 0..Len(s) },
   once     |-> Len(suffixes) = Len(s) + 1,
   accepted |-> \A k \in DOMAIN accepted : accepted[k] \in subs,
   refused  |-> \A k \in DOMAIN refused : refused[k] \notin subs]

\* The same for a long sequence; of each suffix [length, first tokens, last tokens]
\* is recorded (or, all = FALSE, nothing).
EndsOf(x) == << Len(x), SubSeq(x, 1, Min2(3, Len(x))), SubSeq(x, Max2(1, Len(x) - 2), Len(x)) >>
Occurs(p, s) == \E i \in 0..(Len(s) - Len(p)) :
                  (p = <<>> \/ s[i + 1] = p[1]) /\ Slice(s, i, i + Len(p)) = p
SuffixEnds(s) ==
  { << n, SubSeq(s, Len(s) - n + 1, Min2(Len(s), Len(s) - n + 3)),
       SubSeq(s, Max2(Len(s) - n + 1, Len(s) - 2), Len(s)) >> : n \in 0..Len(s) }
LongAutomatonClauses(s, all, ends, accepted, refused) ==
  [suffixes |-> all => Elems(ends) = SuffixEnds(s),
   once     |-> all => Len(ends) = Len(s) + 1,
   accepted |-> \A k \in DOMAIN accepted : Occurs(accepted[k], s),
   refused  |-> \A k \in DOMAIN refused : ~Occurs(refused[k], s)]
=============================================================================
