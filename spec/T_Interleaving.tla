--------------------------- MODULE T_Interleaving ----------------------------
(* Recorded schedules.  r.alone: the items of each call in a process of its    *)
(* own; r.events: << "call", c, <<>> >> and << "take"/"drain"/"drop", result,  *)
(* items >>; r.changed: results whose items later were not what they had been; *)
(* r.arguments: the arguments before and after.                               *)
EXTENDS Interleaving, TraceBase

Step(alone, s, e) ==
  CASE e[1] = "call"  -> [s EXCEPT !.results = Open(@, e[2])]
    [] e[1] = "take"  -> [results |-> Take(alone, s.results, e[2]),
                          bad |-> s.bad \cup IF e[3] = NextOf(alone, s.results, e[2])
                                             THEN {} ELSE {"next"}]
    [] e[1] = "drain" -> LET x == s.results[e[2]] IN
                         [results |-> [s.results EXCEPT ![e[2]].taken = alone[x.call]],
                          bad |-> s.bad \cup IF e[3] = SubSeq(alone[x.call], Len(x.taken) + 1,
                                                              Len(alone[x.call]))
                                             THEN {} ELSE {"rest"}]
    [] OTHER          -> s

CallsVerdict(r) ==
  IF r.error # "" THEN {"completes"}
  ELSE FoldLeft(LAMBDA s, e : Step(r.alone, s, e), [results |-> <<>>, bad |-> {}], r.events).bad
       \cup (IF r.changed = <<>> THEN {} ELSE {"kept"})
       \cup (IF r.arguments[1] = r.arguments[2] THEN {} ELSE {"arguments"})
=============================================================================
