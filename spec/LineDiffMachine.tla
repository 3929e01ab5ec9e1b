--------------------------- MODULE LineDiffMachine ---------------------------
EXTENDS LineDiff
CONSTANTS Char, MaxText, MaxItems
VARIABLES stream, at, c
vars == <<stream, at, c>>

\* The stream is chosen item by item; items of either kind alternate.
Texts == SeqsUpTo(Char, MaxText)
Items == { Keep(t) : t \in Texts \ {<<>>} }
         \cup { Change(t, d) : t \in Texts, d \in Texts }
Allowed(x) == /\ x.t # <<>> \/ x.d # <<>>
              /\ IF stream = <<>> THEN TRUE ELSE stream[Len(stream)].k # x.k

Init == stream = <<>> /\ at = "reading" /\ c = Empty
Accumulate(x) == /\ at = "reading" /\ Len(stream) < MaxItems /\ Allowed(x)
                 /\ stream' = Append(stream, x) /\ c' = Take(c, x) /\ UNCHANGED at
Flush == at = "reading" /\ at' = "done" /\ c' = FlushLines(c) /\ UNCHANGED stream
Next == (at = "reading" /\ Len(stream) < MaxItems /\ \E x \in Items : Accumulate(x)) \/ Flush
Spec == Init /\ [][Next]_vars

Right == at = "done" =>
  /\ Failing(LineDiffClauses(stream, c.out)) = {}
  /\ Failing(LineDiffClauses(stream, ConsolidateLines(c.out))) = {}
  /\ Failing(ConsolidatedClauses(ConsolidateLines(c.out))) = {}
\* What is not complete yet are parts of the lines that are not out yet.
NothingLost == at = "reading" =>
  /\ StreamSide(stream, LAMBDA x : x.t)
       = LineSide(c.out \o << [k |-> 1, t |-> c.into, d |-> c.from] >>, LAMBDA x : x.t)
  /\ c.fin => \A t \in { TextOf(c.into), TextOf(c.from) } : t = <<>> \/ EndsLine(t)
=============================================================================
