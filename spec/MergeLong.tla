------------------------------ MODULE MergeLong ------------------------------
(* C09 and C10 in one pass over the parent, for long merges.  d0, d1: the     *)
(* diffs of the branches.  MergeMachine checks that it means the same.        *)
EXTENDS Merge

NoEdit == Edit(-1, -1, <<>>)

\* For every place of the parent the edit that starts there.
Starts(items) ==
  LET oa == Offsets([i \in DOMAIN items |-> Len(items[i].d)])
      edit(i) == Edit(oa[i], oa[i + 1], items[i].t)
      inserts(i) == i \in DOMAIN items /\ items[i].k = 1 /\ items[i].d = <<>>
      first(i) == IF items[i].k = 1 THEN edit(i) ELSE IF inserts(i - 1) THEN edit(i - 1) ELSE NoEdit
  IN Append(Flat([i \in DOMAIN items |->
                    [j \in 1..Len(items[i].d) |-> IF j = 1 THEN first(i) ELSE NoEdit]]),
            IF inserts(Len(items)) THEN edit(Len(items)) ELSE NoEdit)
Keeps(items) == Flat([i \in DOMAIN items |-> [j \in 1..Len(items[i].d) |-> items[i].k = 0]])

\* The clusters.  hit: whether edits collide in it; since: from where on what a
\* branch kept counts (-1: nowhere).  x, y: the edits that were seen last.
NoCluster == [s |-> -1, e |-> -1, hit |-> FALSE, since |-> -1]
Sweep(S0, S1) ==
  LET step(c, i) ==
        LET g == i - 1
            x == IF S0[i] = NoEdit THEN c.x ELSE S0[i]
            y == IF S1[i] = NoEdit THEN c.y ELSE S1[i]
            hit == x # NoEdit /\ y # NoEdit /\ Collide(x, y)
            counts == /\ hit
                      /\ x.s < y.s => ~OnlyInserts(y)
                      /\ y.s < x.s => ~OnlyInserts(x)
            goesOn == c.now # NoCluster /\ g <= c.now.e
            was == IF goesOn THEN c.now ELSE [NoCluster EXCEPT !.s = g]
        IN IF S0[i] = NoEdit /\ S1[i] = NoEdit THEN c
           ELSE [x |-> x, y |-> y,
                 done |-> IF goesOn \/ c.now = NoCluster THEN c.done ELSE Put(c.done, c.now),
                 now |-> [was EXCEPT !.e = Max2(@, Max2(S0[i].e, S1[i].e)), !.hit = @ \/ hit,
                                     !.since = IF @ = -1 /\ counts THEN g ELSE @]]
      c == FoldLeft(step, [x |-> NoEdit, y |-> NoEdit, done |-> Gathered, now |-> NoCluster],
                    [i \in DOMAIN S0 |-> i])
  IN SelectSeq(AllOf(Put(c.done, c.now)), LAMBDA z : z.hit)

\* For every place: whether it is in a contested cluster, also if its end does not
\* count, and whether what a branch kept there counts.
Places(S0, S1) ==
  LET cs == Sweep(S0, S1)
      n == Len(S0) - 1
      free(from, to) == [g \in 1..(to - from) |-> [at |-> FALSE, in |-> FALSE, since |-> FALSE]]
      end(k) == IF k = 0 THEN 0 ELSE cs[k].e + 1
      inside(c) == [k \in 1..(c.e - c.s + 1) |->
                      LET g == c.s + k - 1 IN
                      [at |-> TRUE, in |-> g < c.e, since |-> g < c.e /\ c.since # -1 /\ g >= c.since]]
  IN Flat([k \in DOMAIN cs |-> free(end(k - 1), cs[k].s) \o inside(cs[k])])
     \o free(end(Len(cs)), n + 1)

Spelled(p, Ins(_), Kept1(_)) ==
  Flat([i \in 1..(Len(p) + 1) |->
          Ins(i) \o (IF i <= Len(p) /\ Kept1(i) THEN << p[i] >> ELSE <<>>)])

\* S, K: of the branch; T, L: of the other one; M: the places.
LeastLong(p, S, K, T, L, M) ==
  Spelled(p, LAMBDA i : IF M[i].at THEN S[i].t ELSE Both(S[i].t, T[i].t),
             LAMBDA i : K[i] /\ (L[i] \/ M[i].since))
MostLong(p, S, K, T, L, M) ==
  Spelled(p, LAMBDA i : IF M[i].at THEN S[i].t \o T[i].t ELSE Both(S[i].t, T[i].t),
             LAMBDA i : K[i] /\ (L[i] \/ M[i].in))

BoundsLong(p, d0, d1, items) ==
  LET S == Starts(d0)
      T == Starts(d1)
      K == Keeps(d0)
      L == Keeps(d1)
      M == Places(S, T)
  IN [firstloses   |-> Embeds(LeastLong(p, S, K, T, L, M), First(items)),
      secondloses  |-> Embeds(LeastLong(p, T, L, S, K, M), Second(items)),
      firstinvents |-> Embeds(First(items), MostLong(p, S, K, T, L, M)),
      secondinvents |-> Embeds(Second(items), MostLong(p, T, L, S, K, M))]

CleanLong(p, d0, d1, items) ==
  LET S == Starts(d0)
      T == Starts(d1)
      K == Keeps(d0)
      L == Keeps(d1)
  IN IF Sweep(S, T) = <<>>
     THEN [clean   |-> Clean(items),
           applied |-> New(items) = Spelled(p, LAMBDA i : Both(S[i].t, T[i].t),
                                               LAMBDA i : K[i] /\ L[i])]
     ELSE [conflict |-> Clean(items) =>
             LET m == Merged(Fragments(d0), Fragments(d1)) IN First(m) = Second(m)]

Same(p, d0, d1) ==
  LET E0 == EditsOf(d0)
      E1 == EditsOf(d1)
      c == Contested(p, E0, E1)
      S == Starts(d0)
      T == Starts(d1)
      K == Keeps(d0)
      L == Keeps(d1)
      M == Places(S, T)
  IN /\ { [s |-> x.s, e |-> x.e] : x \in Elems(Sweep(S, T)) } = c
     /\ LeastLong(p, S, K, T, L, M) = Least(p, E0, E1, c)
     /\ MostLong(p, S, K, T, L, M) = Most(p, E0, E1, c)
     /\ Spelled(p, LAMBDA i : Both(S[i].t, T[i].t), LAMBDA i : K[i] /\ L[i])
          = Assemble(p, LAMBDA g : Both(Inserted(E0, g), Inserted(E1, g)),
                     LAMBDA i : Kept(E0, i) /\ Kept(E1, i))
=============================================================================
