-------------------------------- MODULE Serial -------------------------------
(* Serialised integers (C23) and patches (C22), as sequences of digits of     *)
(* some base (bytes: base 256).  Integers are given by their Width digits,    *)
(* the most significant first.                                                *)
EXTENDS Seqs, TLC

Less(a, b) ==      \* lexicographic order
  \/ \E i \in 1..Min2(Len(a), Len(b)) : a[i] < b[i] /\ SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1)
  \/ Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a

Zeros(d) == LET n == { i \in DOMAIN d : d[i] # 0 } IN IF n = {} THEN Len(d) ELSE MinOf(n) - 1
Significant(d) == SubSeq(d, Zeros(d) + 1, Len(d))
ToInt(d, base) == FoldLeft(LAMBDA x, y : x * base + y, 0, d)   \* for small values only

\* The largest values that take 1, 2 and 3 digits.
One(base) == base - 16
Two(base) == One(base) + 8 * base - 1
Three(base) == Two(base) + base * base

\* How many digits the encoding of an integer has.
LengthOf(d, base) ==
  LET n == Len(Significant(d)) IN
  IF n > 3 THEN n + 1
  ELSE LET v == ToInt(d, base) IN
       IF v <= One(base) THEN 1 ELSE IF v <= Two(base) THEN 2
       ELSE IF v <= Three(base) THEN 3 ELSE 4

(* batch: list, in increasing order, of [v, enc, back, rest, cuts]: the       *)
(* integer, its encoding, what decoding gave (followed by several tails),     *)
(* whether the tails came back, whether all proper prefixes were refused.     *)
IntClauses(batch, base, variable) ==
  [exact    |-> \A i \in DOMAIN batch : \A k \in DOMAIN batch[i].back :
                  batch[i].back[k] = batch[i].v,
   rest     |-> \A i \in DOMAIN batch : batch[i].rest,
   digits   |-> \A i \in DOMAIN batch : \A k \in DOMAIN batch[i].enc :
                  batch[i].enc[k] \in 0..(base - 1),
   compact  |-> \A i \in DOMAIN batch :
                  Len(batch[i].enc) = IF variable THEN LengthOf(batch[i].v, base) ELSE 4,
   ordered  |-> \A i \in 1..(Len(batch) - 1) :
                  /\ Less(batch[i].v, batch[i + 1].v)
                  /\ Less(batch[i].enc, batch[i + 1].enc),
   cutoff   |-> \A i \in DOMAIN batch : batch[i].cuts]

(* A patch is a list of [k, t, s, e]: k = 1: the bytes t, k = 0: the span      *)
(* s..e.  cuts: what was read from proper prefixes.                           *)
NonEmpty(patch) == SelectSeq(patch, LAMBDA x : IF x.k = 1 THEN x.t # <<>> ELSE x.s # x.e)
Leading(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
PatchSerialClauses(patch, back, cuts) ==
  [same    |-> back = NonEmpty(patch),
   leading |-> \A i \in DOMAIN cuts : Leading(cuts[i], NonEmpty(patch))]
=============================================================================
