------------------------------ MODULE CutsMachine ----------------------------
(* A store whose additions are sequences of storage operations, cut short      *)
(* behind any of them.                                                        *)
EXTENDS Cuts, Json
CONSTANTS MaxVersions, Printing
VARIABLES h,        \* with the addition under way
          parent, head, delta,   \* the storage; 0, 0, <<>>: nothing there
          pending,  \* the operations to come
          before, after,         \* as in Cuts, of the addition under way
          stopped
vars == <<h, parent, head, delta, pending, before, after, stopped>>

Forest == [parent |-> parent, verbatim |-> head, delta |-> delta]
Init == /\ h = <<>> /\ parent = <<>> /\ head = <<>> /\ delta = <<>> /\ pending = <<>>
        /\ before = <<>> /\ after = <<>> /\ stopped = FALSE

\* Version t has content t.
Begin(base) ==
  LET n == Len(h) + 1
      split == IF base = 0 THEN 0 ELSE SplitOf(Forest, base)
      g == AddTo(Forest, base, n)
      edge(c) == << [op |-> "delta", t |-> c, from |-> n], [op |-> "parent", t |-> c, from |-> n],
                    [op |-> "drop", t |-> c, from |-> n] >>
  IN /\ pending = <<>> /\ Len(h) < MaxVersions
     /\ h' = Append(h, Version(base, n))
     /\ before' = [t \in DOMAIN h |-> PathTo(Forest, t)]
     /\ after' = [t \in DOMAIN h |-> PathTo(g, t)]
     /\ parent' = Append(parent, 0) /\ head' = Append(head, 0) /\ delta' = Append(delta, <<>>)
     /\ pending' = << [op |-> "head", t |-> n, from |-> n], [op |-> "tree", t |-> n, from |-> n] >>
                   \o (IF split \in {0, base} THEN <<>> ELSE edge(split))
                   \o (IF base = 0 THEN <<>> ELSE edge(base))
     /\ IF Printing /\ Len(h') = MaxVersions
        THEN PrintT("HISTORY " \o ToJson([i \in DOMAIN h' |-> h'[i].base])) ELSE TRUE
     /\ UNCHANGED stopped

Step ==
  /\ pending # <<>>
  /\ LET p == pending[1] IN
     /\ head' = IF p.op = "head" THEN [head EXCEPT ![p.t] = p.t]
                ELSE IF p.op = "drop" THEN [head EXCEPT ![p.t] = 0] ELSE head
     /\ delta' = IF p.op = "delta" THEN [delta EXCEPT ![p.t] = << p.from, p.t >>] ELSE delta
     /\ parent' = IF p.op = "parent" THEN [parent EXCEPT ![p.t] = p.from] ELSE parent
  /\ pending' = Tail(pending)
  /\ UNCHANGED <<h, before, after, stopped>>

Cut == pending # <<>> /\ stopped' = TRUE /\ UNCHANGED <<h, parent, head, delta, pending, before, after>>

Next == ~stopped /\ ((\E base \in 0..Len(h) : Begin(base)) \/ Step \/ Cut)
Spec == Init /\ [][Next]_vars

Gets == [t \in DOMAIN h |-> << t, Retrieve(Forest, t) >>]
Survive == Failing(CutClauses(h, before, after, pending # <<>>, Gets)) = {}
=============================================================================
