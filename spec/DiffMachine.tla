----------------------------- MODULE DiffMachine -----------------------------
(* How diffs come about.                                                     *)
EXTENDS Diff
(* Split segments around any longest common run, from left to   *)
(* right, until nothing is in common.                                        *)
CONSTANTS Token, MaxLen
VARIABLES a, b,     \* the sequences compared
          todo,     \* segments [al, ah, bl, bh] and runs still to be handled
          items     \* the diff so far

vars == <<a, b, todo, items>>

Segment(al, ah, bl, bh) == [run |-> FALSE, al |-> al, ah |-> ah, bl |-> bl, bh |-> bh]
Run(al, bl, n) == [run |-> TRUE, al |-> al, ah |-> al + n, bl |-> bl, bh |-> bl + n]

Init == /\ a \in SeqsUpTo(Token, MaxLen)
        /\ b \in SeqsUpTo(Token, MaxLen)
        /\ todo = << Segment(0, Len(a), 0, Len(b)) >>
        /\ items = <<>>

Top == Head(todo)
SideA == Slice(a, Top.al, Top.ah)
SideB == Slice(b, Top.bl, Top.bh)

Split ==
  /\ todo # <<>> /\ ~Top.run
  /\ LET n == LcsLength(SideA, SideB) IN
     /\ n > 0
     /\ \E i \in 0..(Len(SideA) - n), j \in 0..(Len(SideB) - n) :
          /\ Slice(SideA, i, i + n) = Slice(SideB, j, j + n)
          /\ todo' = << Segment(Top.al, Top.al + i, Top.bl, Top.bl + j),
                        Run(Top.al + i, Top.bl + j, n),
                        Segment(Top.al + i + n, Top.ah, Top.bl + j + n, Top.bh) >>
                     \o Tail(todo)
  /\ UNCHANGED <<a, b, items>>

Leaf ==
  /\ todo # <<>> /\ ~Top.run
  /\ LcsLength(SideA, SideB) = 0
  /\ items' = IF SideA = <<>> /\ SideB = <<>> THEN items
              ELSE Append(items, Change(SideB, SideA))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<a, b>>

KeepRun ==
  /\ todo # <<>> /\ Top.run
  /\ items' = Append(items, Keep(SideA))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<a, b>>

Next == Split \/ Leaf \/ KeepRun
Spec == Init /\ [][Next]_vars

Finished == todo = <<>>
DiffIsRight  == Finished => Failing(DiffClauses(a, b, items)) = {}
KeepsLongest == Finished => Failing(KeepClauses(a, b, items)) = {}
PatchesWork  == Finished =>
  /\ Failing(PatchClauses(a, ForwardPatch(items), b, <<>>)) = {}
  /\ Failing(PatchClauses(b, ReversePatch(items), a, <<>>)) = {}
\* The machine always gets on: it stops only when finished.
GetsOn == ~Finished => ENABLED Next
=============================================================================
