--------------------------- MODULE RenamingMachine ---------------------------
EXTENDS DiffMachine, Renaming
VARIABLES pi, items2
rvars == <<a, b, todo, items, pi, items2>>

A2 == Rename(a, pi)
B2 == Rename(b, pi)
SideA2 == Slice(A2, Top.al, Top.ah)
SideB2 == Slice(B2, Top.bl, Top.bh)

RInit == Init /\ pi \in Renamings(Token) /\ items2 = <<>>
RSplit == Split /\ UNCHANGED <<pi, items2>>
RLeaf == /\ Leaf
         /\ items2' = IF SideA2 = <<>> /\ SideB2 = <<>> THEN items2
                      ELSE Append(items2, Change(SideB2, SideA2))
         /\ UNCHANGED pi
RKeep == KeepRun /\ items2' = Append(items2, Keep(SideA2)) /\ UNCHANGED pi
RSpec == RInit /\ [][RSplit \/ RLeaf \/ RKeep]_rvars

Follows == items2 = RenameItems(items, pi)
\* The twin would split at the very same places, or not at all either.
SameChoices ==
  ~Finished /\ ~Top.run =>
    /\ LcsLength(SideA, SideB) = LcsLength(SideA2, SideB2)
    /\ LET n == LcsLength(SideA, SideB) IN
       \A i \in 0..(Len(SideA) - n), j \in 0..(Len(SideB) - n) :
         (Slice(SideA, i, i + n) = Slice(SideB, j, j + n))
         <=> (Slice(SideA2, i, i + n) = Slice(SideB2, j, j + n))
TwinIsRight == Finished => Failing(DiffClauses(A2, B2, items2)) = {}
=============================================================================
