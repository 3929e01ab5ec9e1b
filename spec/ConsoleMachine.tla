---------------------------- MODULE ConsoleMachine ---------------------------
(* A stream is printed call by call.                                          *)
EXTENDS Rich
CONSTANTS Char, MaxText, MaxItems
VARIABLES stream, at, calls, seen
vars == <<stream, at, calls, seen>>

Texts == SeqsUpTo(Char, MaxText)
Items == { Keep(t) : t \in Texts \ {<<>>} }
         \cup { Change(t, d) : t \in Texts, d \in Texts }
Allowed(x) == /\ x.t # <<>> \/ x.d # <<>>
              /\ IF stream = <<>> THEN TRUE ELSE stream[Len(stream)].k # x.k

Init == stream = <<>> /\ at = "reading" /\ calls = <<>> /\ seen = <<>>
Read(x) == /\ at = "reading" /\ Len(stream) < MaxItems /\ Allowed(x)
           /\ stream' = Append(stream, x) /\ UNCHANGED <<at, calls, seen>>
Start(form) == /\ at = "reading" /\ at' = form /\ UNCHANGED <<stream, seen>>
               /\ calls' = IF form = "plain" THEN StreamCalls(stream)
                           ELSE LineCalls(ConsolidateLines(LineDiffOf(stream)))
Show == /\ at # "reading" /\ calls # <<>>
         /\ seen' = Append(seen, Shown(Head(calls)))
         /\ calls' = Tail(calls) /\ UNCHANGED <<stream, at>>
Next == (at = "reading" /\ Len(stream) < MaxItems /\ \E x \in Items : Read(x)) \/ (\E form \in {"plain", "lines"} : Start(form)) \/ Show
Spec == Init /\ [][Next]_vars

WellFormed == \A i \in DOMAIN seen : seen[i].ok /\ seen[i].open = 0
AllShown == at # "reading" /\ calls = <<>> =>
  Flat([i \in DOMAIN seen |-> seen[i].text])
    = IF at = "plain" THEN Body(stream) ELSE LineBody(ConsolidateLines(LineDiffOf(stream)))
=============================================================================
