-------------------------------- MODULE Merge --------------------------------
(* Three-way merges (C08-C11).                                               *)
(*                                                                           *)
(* An edit [s, e, t] of a branch replaces the parent's tokens s..e (half     *)
(* open) by t.  A merge is a sequence of items [k, t, d]: k = 0: text;       *)
(* k = 1: a conflict between t (the first branch) and d (the second).        *)
EXTENDS Diff

Edit(s, e, t) == [s |-> s, e |-> e, t |-> t]

\* The edits of a diff against the parent.
EditsOf(items) ==
  LET oa == Offsets([i \in DOMAIN items |-> Len(items[i].d)]) IN
  { Edit(oa[i], oa[i + 1], items[i].t) : i \in { j \in DOMAIN items : items[j].k = 1 } }

\* Edits collide when they differ and change a common token or start at the
\* same place, unless one only inserts and the other only deletes.
OnlyInserts(e) == e.s = e.e
OnlyDeletes(e) == e.t = <<>>
Collide(e, f) ==
  /\ e # f
  /\ IF e.s = f.s
     THEN ~(OnlyInserts(e) /\ OnlyDeletes(f)) /\ ~(OnlyInserts(f) /\ OnlyDeletes(e))
     ELSE e.s < f.e /\ f.s < e.e

Colliding(E0, E1) == \E e \in E0, f \in E1 : Collide(e, f)

Inserted(E, g) ==       \* what is inserted in front of token g
  IF \E e \in E : e.s = g THEN (CHOOSE e \in E : e.s = g).t ELSE <<>>
Kept(E, i) == ~\E e \in E : e.s <= i /\ i < e.e

\* Groups of edits of both branches that touch one another; those in which
\* edits collide are contested.
Clusters(p, E0, E1) ==
  LET step(c, g) ==
        LET E == { e \in E0 \cup E1 : e.s = g }
            end == MaxOf({ e.e : e \in E }) IN
        IF E = {} THEN c
        ELSE IF c # <<>> /\ g <= c[Len(c)].e
        THEN [c EXCEPT ![Len(c)].e = Max2(@, end)]
        ELSE Append(c, [s |-> g, e |-> end])
  IN FoldLeft(step, <<>>, [i \in 1..(Len(p) + 1) |-> i - 1])

Contested(p, E0, E1) ==
  LET inside(E, c) == { e \in E : c.s <= e.s /\ e.s <= c.e }
      cs == Clusters(p, E0, E1)
  IN { cs[i] : i \in { j \in DOMAIN cs :
         \E e \in inside(E0, cs[j]), f \in inside(E1, cs[j]) : Collide(e, f) } }

Assemble(p, Ins(_), Keeps(_)) ==
  Flat([i \in 1..(Len(p) + 1) |->
          Ins(i - 1) \o (IF i <= Len(p) /\ Keeps(i - 1) THEN << p[i] >> ELSE <<>>)])

Both(x, y) == IF x = y THEN x ELSE x \o y

\* Whether edits collided in front of token i, or at it, and since then no token
\* was kept by both.  An edit that only inserts, in the midst of what the other
\* removed, does not count: the rest is still removed as without it.
SinceCollision(E0, E1, contested, i) ==
  \E c \in contested : c.s <= i /\ i < c.e /\
    \E e \in E0, f \in E1 :
      /\ Collide(e, f)
      /\ c.s <= Min2(e.s, f.s) /\ Max2(e.s, f.s) <= i
      /\ e.s < f.s => ~OnlyInserts(f)
      /\ f.s < e.s => ~OnlyInserts(e)

\* The least and the most that the resolution for the branch with edits E may
\* hold when the other has edits F.
Least(p, E, F, contested) ==
  LET in(g) == \E c \in contested : c.s <= g /\ g <= c.e
      ins(g) == IF in(g) THEN Inserted(E, g) ELSE Both(Inserted(E, g), Inserted(F, g))
      keep(i) == Kept(E, i) /\ (Kept(F, i) \/ SinceCollision(E, F, contested, i))
  IN Assemble(p, ins, keep)
Most(p, E, F, contested) ==
  LET at(g) == \E c \in contested : c.s <= g /\ g <= c.e
      in(i) == \E c \in contested : c.s <= i /\ i < c.e
      ins(g) == IF at(g) THEN Inserted(E, g) \o Inserted(F, g)
                ELSE Both(Inserted(E, g), Inserted(F, g))
      keep(i) == Kept(E, i) /\ (Kept(F, i) \/ in(i))
  IN Assemble(p, ins, keep)

\* Resolutions of a merge.
First(items)  == New(items)
Second(items) == Old(items)
Clean(items)  == \A i \in DOMAIN items : items[i].k = 0

\* C09
BoundsClauses(p, E0, E1, items) ==
  LET c == Contested(p, E0, E1) IN
  [firstloses   |-> Embeds(Least(p, E0, E1, c), First(items)),
   secondloses  |-> Embeds(Least(p, E1, E0, c), Second(items)),
   firstinvents |-> Embeds(First(items), Most(p, E0, E1, c)),
   secondinvents |-> Embeds(Second(items), Most(p, E1, E0, c))]

-----------------------------------------------------------------------------
(* The merge itself: two stacks of fragments, [copy, t, n]: n parent tokens   *)
(* are copied (then t holds them) or replaced by t.                           *)
Fragment(copy, t, n) == [copy |-> copy, t |-> t, n |-> n]
Fragments(items) ==
  [i \in DOMAIN items |-> Fragment(items[i].k = 0, items[i].t, Len(items[i].d))]

\* The state of a merge: what is left of both, whether a conflict is going on,
\* and the output: text (k = 0) and conflicts (k = 1).
Start(f0, f1) == [f |-> f0, g |-> f1, in |-> FALSE, out |-> <<>>]
Done(m) == m.f = <<>> /\ m.g = <<>>

Push(fragment, stack) == << fragment >> \o stack
Text(t) == [k |-> 0, t |-> t, d |-> t]
Conflict(t, d) == [k |-> 1, t |-> t, d |-> d]

\* The first n parent tokens of a fragment, and the rest; all that a change
\* inserts belongs to its first part.  An empty part is dropped.
Front2(x, n) == Fragment(x.copy, IF x.copy THEN SubSeq(x.t, 1, n) ELSE x.t, n)
Rest2(x, n)  == Fragment(x.copy, IF x.copy THEN SubSeq(x.t, n + 1, x.n) ELSE <<>>, x.n - n)
PushRest(x, n, stack) == IF x.n > n THEN Push(Rest2(x, n), stack) ELSE stack

\* Both copy: the shorter is text, and no conflict goes on beyond it.
CopyCopy(m, x, y) ==
  LET n == Min2(x.n, y.n) IN
  [f |-> PushRest(x, n, Tail(m.f)), g |-> PushRest(y, n, Tail(m.g)), in |-> FALSE,
   out |-> Append(m.out, Text(Front2(x, n).t))]

\* A conflict goes on: whatever either branch has next is part of it.
Pending(m, x, y) ==
  LET n == Min2(x.n, y.n)
      side(z) == IF z.copy THEN Front2(z, n).t ELSE z.t
  IN [f |-> PushRest(x, n, Tail(m.f)), g |-> PushRest(y, n, Tail(m.g)), in |-> TRUE,
      out |-> Append(m.out, Conflict(side(x), side(y)))]

\* One copies, the other changes at least as little: the change is taken.
TakeChange(m, x, y) ==
  LET n == Min2(x.n, y.n)
      change == IF x.copy THEN y ELSE x
  IN [f |-> PushRest(x, n, Tail(m.f)), g |-> PushRest(y, n, Tail(m.g)), in |-> FALSE,
      out |-> Append(m.out, Text(change.t))]

\* One copies, the other changes more: what it inserts conflicts with the copy.
ChangeLonger(m, x, y) ==
  LET n == Min2(x.n, y.n) IN
  [f |-> PushRest(x, n, Tail(m.f)), g |-> PushRest(y, n, Tail(m.g)), in |-> FALSE,
   out |-> Append(m.out, Conflict(x.t, y.t))]

\* One only inserts, the other only deletes.
Compose(m, x, y) ==
  IF x.n = 0
  THEN [f |-> Tail(m.f), g |-> m.g, in |-> FALSE, out |-> Append(m.out, Text(x.t))]
  ELSE [f |-> m.f, g |-> Tail(m.g), in |-> FALSE, out |-> Append(m.out, Text(y.t))]

Composable(x, y) == (x.n = 0 /\ y.t = <<>>) \/ (y.n = 0 /\ x.t = <<>>)

Agree(m, x) == [f |-> Tail(m.f), g |-> Tail(m.g), in |-> FALSE,
                out |-> Append(m.out, Text(x.t))]

Differ(m, x, y) ==
  LET n == Min2(x.n, y.n) IN
  [f |-> PushRest(x, n, Tail(m.f)), g |-> PushRest(y, n, Tail(m.g)), in |-> TRUE,
   out |-> Append(m.out, Conflict(x.t, y.t))]

\* One branch is through: the rest of the other follows.
Flush(m) ==
  LET item(z, first) == IF ~m.in THEN Text(z.t)
                        ELSE IF first THEN Conflict(z.t, <<>>) ELSE Conflict(<<>>, z.t)
  IN [f |-> <<>>, g |-> <<>>, in |-> m.in,
      out |-> m.out \o [i \in DOMAIN m.f |-> item(m.f[i], TRUE)]
                    \o [i \in DOMAIN m.g |-> item(m.g[i], FALSE)]]

MergeStep(m) ==
  IF m.f = <<>> \/ m.g = <<>> THEN Flush(m)
  ELSE LET x == Head(m.f)
           y == Head(m.g)
       IN IF x.copy /\ y.copy THEN CopyCopy(m, x, y)
          ELSE IF m.in THEN Pending(m, x, y)
          ELSE IF ~x.copy /\ ~y.copy
          THEN IF Composable(x, y) THEN Compose(m, x, y)
               ELSE IF x = y THEN Agree(m, x)
               ELSE Differ(m, x, y)
          ELSE LET change == IF x.copy THEN y ELSE x
                   copy   == IF x.copy THEN x ELSE y
               IN IF change.n <= copy.n THEN TakeChange(m, x, y)
                  ELSE ChangeLonger(m, x, y)

RECURSIVE RunMerge(_)
RunMerge(m) == IF Done(m) THEN m.out ELSE RunMerge(MergeStep(m))

\* Adjacent conflicts are one conflict.  What its sides have in common is none.
Joined(out) ==
  LET step(acc, x) ==
        IF x.t = <<>> /\ x.d = <<>> THEN acc
        ELSE IF acc # <<>> /\ acc[Len(acc)].k = x.k
        THEN [acc EXCEPT ![Len(acc)].t = @ \o x.t, ![Len(acc)].d = @ \o x.d]
        ELSE Append(acc, x)
  IN FoldLeft(step, <<>>, out)

Consolidate(out) ==
  Joined(Flat([i \in DOMAIN Joined(out) |->
    LET x == Joined(out)[i] IN IF x.k = 0 THEN <<x>> ELSE DiffOf(x.d, x.t)]))

Merged(f0, f1) == Consolidate(RunMerge(Start(f0, f1)))

-----------------------------------------------------------------------------
\* C10.  If edits collide and there is no conflict, then both sides of every
\* collision must be the same text: the machine tells what they are.
CleanClauses(p, E0, E1, f0, f1, items) ==
  IF ~Colliding(E0, E1)
  THEN [clean   |-> Clean(items),
        applied |-> New(items) = Assemble(p, LAMBDA g : Both(Inserted(E0, g), Inserted(E1, g)),
                                          LAMBDA i : Kept(E0, i) /\ Kept(E1, i))]
  ELSE [conflict |-> Clean(items) =>
          LET m == Merged(f0, f1) IN First(m) = Second(m)]

\* C11: items with the branches in one order, flipped in the other.
SymmetryClauses(items, flipped) ==
  [first  |-> First(items) = Second(flipped),
   second |-> Second(items) = First(flipped),
   clean  |-> Clean(items) <=> Clean(flipped)]

\* C08: a merge that must be one fragment with the given text.
WholeClauses(text, items) ==
  [whole |-> items = << Text(text) >>]

\* C34: the form of a merge.
FormClauses(items) ==
  [alternate |-> \A i \in 1..(Len(items) - 1) : items[i].k # items[i + 1].k,
   nonempty  |-> Len(items) > 1 => \A i \in DOMAIN items : items[i].t # <<>> \/ items[i].d # <<>>,
   apart     |-> \A i \in DOMAIN items :
                   items[i].k = 1 => Elems(items[i].t) \cap Elems(items[i].d) = {}]
=============================================================================
