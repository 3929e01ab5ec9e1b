--------------------------- MODULE VersionsMachine ---------------------------
(* A store and both trees through every history of additions, valid or not.   *)
EXTENDS Trees, Json
CONSTANTS Content, MaxVersions,
          Linear,     \* only histories in which every version has the previous as its base
          Printing    \* print the histories, to be replayed in the code
VARIABLES h, f, mem, db, written
vars == <<h, f, mem, db, written>>

Init == h = <<>> /\ f = EmptyForest /\ mem = EmptyMem /\ db = EmptyDB /\ written = {}

Add(base, content) ==
  /\ Len(h) < MaxVersions
  /\ h' = Append(h, Version(base, content))
  /\ f' = AddTo(f, base, content)
  /\ mem' = MemGrow(mem, base)
  /\ db' = DBGrow(db, base)
  /\ written' = Rewritten(f, base)
  /\ IF Printing /\ Len(h') = MaxVersions
     THEN PrintT("HISTORY " \o ToJson([i \in DOMAIN h' |-> h'[i].base])) ELSE TRUE

\* An unknown base, a used tag, unsuitable contents.
Reject == UNCHANGED vars

Next == \/ \E base \in (IF Linear THEN {Len(h)} ELSE 0..Len(h)), content \in Content :
             Add(base, content)
        \/ Reject
Spec == Init /\ [][Next]_vars

Tags == DOMAIN h
Paths == [t \in DOMAIN h |-> [v |-> t, path |-> PathTo(f, t)]]

Retrievable == Failing(GetClauses(h, [t \in DOMAIN h |-> << t, Retrieve(f, t) >>])) = {}
PathsRight == Failing(PathClauses(h, Paths) @@ LinearClauses(h, Paths) @@ RepeatClauses(Paths)) = {}
Held == Failing(StorageClauses(h, SetToSeq({ t \in Tags : f.verbatim[t] # 0 }),
                               SetToSeq(written))) = {}
HeldOnce == \A t \in Tags : (f.verbatim[t] = 0) <=> (f.delta[t] # <<>>)
\* Two slots for children are enough.
TwoChildren == \A t \in Tags : Cardinality(Children(f, t)) <= 2
\* Both trees implement the forest.
MemRefines ==
  /\ mem.parent = f.parent
  /\ \A t \in Tags : /\ Elems(mem.children[t]) = Children(f, t)
                     /\ mem.height[t] = Height(f, t)
                     /\ MemSplit(mem, t) = SplitOf(f, t)
DBRefines ==
  /\ db.parent = f.parent
  /\ \A t \in Tags : /\ DBKids(db, t) = Children(f, t)
                     /\ db.height[t] = Height(f, t)
                     /\ DBSplit(db, t) = SplitOf(f, t)
SameSizes == mem.size = db.size
=============================================================================
