----------------------------- MODULE RampMachine -----------------------------
(* What judges long recordings means the same as what judges short ones.      *)
EXTENDS Lcs
CONSTANTS Token, MaxLen
VARIABLES a, b, c

Ramps == { r \in SeqsUpTo(Token, MaxLen) : IsRamp(r) }
Init == a \in Ramps /\ b \in SeqsUpTo(Token, MaxLen) /\ c \in SeqsUpTo(Token, MaxLen)
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>

SameForTwo == \A n \in 1..(MaxLen + 1) : (RampRuns(a, b, n) = <<>>) <=> ShareNoRun(a, b, n)
SameForAll == \A n \in 1..(MaxLen + 1) :
  RampsShareNoRun(<<a, b, c>>, n) <=> AllShareNoRun(<<a, b, c>>, n)
RunsAreRuns == \A n \in 1..MaxLen : \A r \in Elems(RampRuns(a, b, n)) :
  r[2] >= n /\ \E j \in 0..(Len(b) - r[2]) : Slice(b, j, j + r[2]) = Slice(a, r[1], r[1] + r[2])

OccursTheSame == \A s \in {a, b} : Occurs(c, s) <=> c \in Substrings(s)
EndsTheSame == { EndsOf(Slice(b, i, Len(b))) : i \in 0..Len(b) } = SuffixEnds(b)

Numbers(n) == [i \in 1..n |-> i]
ASSUME Flat([i \in 1..1777 |-> << 2 * i - 1, 2 * i >>]) = Numbers(2 * 1777)
ASSUME Flat([i \in 1..501 |-> << i >>]) = Numbers(501)
=============================================================================
