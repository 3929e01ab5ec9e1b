---------------------------- MODULE ManifestMachine --------------------------
(* Manifests and their items in one store.                                    *)
EXTENDS Manifest, Json
CONSTANTS Names, MaxManifests, Printing
VARIABLES s,       \* what there should be
          f,       \* the store's forest
          number,  \* number[k]: the item (> 0) or manifest (< 0) that version k is
          log
vars == <<s, f, number, log>>

Init == s = Nothing /\ f = EmptyForest /\ number = <<>> /\ log = <<>>

VersionOf(x) == IF \E k \in DOMAIN number : number[k] = x
                THEN CHOOSE k \in DOMAIN number : number[k] = x ELSE 0

\* Names get items one after the other: none (0), a stored one, or a new one;
\* a new one may have several names.
Picks(n) == [Names -> 0..(n + 2)]
Sensible(c, n) == /\ \A x \in Names : c[x] = n + 2 => \E y \in Names : y < x /\ c[y] = n + 1
EntriesFor(c) == LET named == { x \in Names : c[x] # 0 } IN
  [i \in 1..Cardinality(named) |->
     LET x == CHOOSE y \in named : Cardinality({ z \in named : z < y }) = i - 1 IN << x, c[x] >>]

\* Store the items of the entries that are new, then the manifest.
StoreItem(acc, e, base) ==
  IF \E k \in DOMAIN acc.number : acc.number[k] = e[2] THEN acc
  ELSE LET there == { b \in EntriesOf(s, base) : b[1] = e[1] }
           from == IF there = {} THEN 0 ELSE VersionOf((CHOOSE b \in there : TRUE)[2])
       IN [f |-> AddTo(acc.f, from, << e[2] >>), number |-> Append(acc.number, e[2])]
AddManifest(base, c) ==
  LET n == Cardinality(s.items)
      entries == EntriesFor(c)
      items == FoldLeft(LAMBDA acc, e : StoreItem(acc, e, base), [f |-> f, number |-> number], entries)
      m == Len(s.ms) + 1
      new == SetToSeq({ << e[2], e[2] >> : e \in { x \in Elems(entries) : x[2] > n } })
      event == [base |-> base, entries |-> entries, new |-> new]
  IN /\ Len(log) < MaxManifests
     /\ s' = AfterManifest(s, event)
     /\ f' = AddTo(items.f, IF base = 0 THEN 0 ELSE VersionOf(-base), Flat(entries))
     /\ number' = Append(items.number, -m)
     /\ log' = Append(log, [base |-> base, entries |-> entries, fail |-> "", at |-> 0])
     /\ IF Printing /\ Len(log') = MaxManifests THEN PrintT("HISTORY " \o ToJson(log')) ELSE TRUE

Next == \E base \in 0..Len(s.ms) :
          LET n == Cardinality(s.items) IN
          \E c \in { x \in Picks(n) : Sensible(x, n) } : AddManifest(base, c)
Spec == Init /\ [][Next]_vars

Items == { k \in DOMAIN number : number[k] > 0 }
Right ==
  /\ \A k \in DOMAIN number :
       Retrieve(f, k) = IF number[k] > 0 THEN << number[k] >> ELSE Flat(s.ms[-number[k]])
  /\ { number[k] : k \in Items } = Stored(s)
  /\ Cardinality(Items) = Cardinality(s.items)
OnlyTwoChildren == \A k \in DOMAIN number : Cardinality(Children(f, k)) <= 2
=============================================================================
