----------------------------- MODULE VersionsGoals ---------------------------
(* Random histories that lead the trees into situations which short histories *)
(* do not: where the choice of a child, or of its place, matters.             *)
EXTENDS Trees, Json, Randomization
CONSTANT MaxVersions
VARIABLES bases, mem, db, reached
vars == << bases, mem, db, reached >>

\* Nodes with children a and b, a the older one.
Forks(m) == { t \in DOMAIN m.children : Len(m.children[t]) = 2 }
Older(m, t) == MinOf(Elems(m.children[t]))
Newer(m, t) == MaxOf(Elems(m.children[t]))

Goals(m, d) ==
  LET forks == Forks(m)
      higher(t) == m.height[Older(m, t)] - m.height[Newer(m, t)]
      larger(t) == m.size[Older(m, t)] - m.size[Newer(m, t)]
      g(name, test) == IF test THEN {name} ELSE {}
  IN g("tie, older larger", \E t \in forks : higher(t) = 0 /\ larger(t) > 0)
     \cup g("tie, newer larger", \E t \in forks : higher(t) = 0 /\ larger(t) < 0)
     \cup g("higher but smaller, older", \E t \in forks : higher(t) > 0 /\ larger(t) < 0)
     \cup g("higher but smaller, newer", \E t \in forks : higher(t) < 0 /\ larger(t) > 0)
     \cup g("higher but as large", \E t \in forks : higher(t) # 0 /\ larger(t) = 0)
     \cup g("newer child came first", \E t \in forks : m.children[t][1] > m.children[t][2])
     \cup g("newer child in first slot",
            \E t \in forks : d.slot[t][1] > d.slot[t][2])
     \cup g("only the second slot", \E t \in DOMAIN d.slot : d.slot[t][1] = 0 /\ d.slot[t][2] # 0)
     \cup g("tie of tall children", \E t \in forks : higher(t) = 0 /\ m.height[Older(m, t)] > 3)

Init == bases = <<>> /\ mem = EmptyMem /\ db = EmptyDB /\ reached = {}
Step(base) ==
  /\ bases' = Append(bases, base)
  /\ mem' = MemGrow(mem, base)
  /\ db' = DBGrow(db, base)
  /\ reached' = reached \cup Goals(mem', db')
  /\ \A g \in reached' \ reached : PrintT("GOAL " \o ToJson(<< g, bases' >>))
Next == /\ Len(bases) < MaxVersions
        /\ LET n == Len(bases) IN
           Step(IF RandomElement(1..100) <= 60 THEN n ELSE RandomElement(0..n))
Spec == Init /\ [][Next]_vars
=============================================================================
