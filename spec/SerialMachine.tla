---------------------------- MODULE SerialMachine ----------------------------
(* The encoder as a function, the reader as a machine that takes digit after  *)
(* digit of a possibly cut-off stream.                                        *)
EXTENDS Serial
CONSTANTS Base,         \* at least 17
          Runs, Marks,  \* the byte runs, and the positions of spans, of patches
          MaxItems
VARIABLES patch, cut,   \* cut: whether the stream is cut off
          stream,       \* what is left of the stream
          state,        \* "run": reads the length of a run; "start", "stop": a position;
                        \* "bytes": the run itself; "failed", "done"
          number,       \* digits of the number being read so far
          start, need,  \* where the span starts; bytes still to be read
          run, items    \* bytes read, items given
vars == <<patch, cut, stream, state, number, start, need, run, items>>

\* All for native integers.
RECURSIVE DigitsOf(_)
DigitsOf(v) == IF v = 0 THEN <<>> ELSE Append(DigitsOf(v \div Base), v % Base)
Padded(d, n) == IF Len(d) < n THEN [i \in 1..(n - Len(d)) |-> 0] \o d ELSE d
Encode(v) ==
  IF v <= One(Base) THEN << v >>
  ELSE IF v <= Two(Base) THEN LET x == v - One(Base) IN
       << One(Base) + 1 + (x \div Base), x % Base >>
  ELSE IF v <= Three(Base) THEN << One(Base) + 9 >> \o Padded(DigitsOf(v - Two(Base) - 1), 2)
  ELSE LET d == Padded(DigitsOf(v), 3) IN << One(Base) + 10 + Len(d) - 3 >> \o d

\* How many digits a number has whose first is x.
Announced(x) == IF x <= One(Base) THEN 1 ELSE IF x <= One(Base) + 8 THEN 2
                ELSE IF x = One(Base) + 9 THEN 3 ELSE x - One(Base) - 10 + 4
Decode(d) ==
  CASE Len(d) = 1 -> d[1]
    [] Len(d) = 2 -> One(Base) + Base * (d[1] - One(Base) - 1) + d[2]
    [] Len(d) = 3 -> Two(Base) + 1 + ToInt(Tail(d), Base)
    [] OTHER -> ToInt(Tail(d), Base)

\* Runs and spans take turns; an empty one is put in where two of a kind follow.
SerialItem(acc, x) ==
  LET fill == IF acc.run /\ x.k = 0 THEN Encode(0)
              ELSE IF ~acc.run /\ x.k = 1 THEN Encode(0) \o Encode(0) ELSE <<>>
  IN [run |-> x.k = 0,
      out |-> acc.out \o fill \o (IF x.k = 1 THEN Encode(Len(x.t)) \o x.t
                                  ELSE Encode(x.s) \o Encode(x.e))]
Serialized(p) == FoldLeft(SerialItem, [run |-> TRUE, out |-> <<>>], p).out

RunItem(t) == [k |-> 1, t |-> t, s |-> 0, e |-> 0]
SpanItem(s, e) == [k |-> 0, t |-> <<>>, s |-> s, e |-> e]
AllItems == { RunItem(t) : t \in Runs }
            \cup { SpanItem(m[1], m[2]) : m \in { x \in Marks \X Marks : x[1] <= x[2] } }

Init ==
  /\ patch \in SeqsUpTo(AllItems, MaxItems)
  /\ LET full == Serialized(patch) IN
     /\ stream \in { SubSeq(full, 1, n) : n \in 0..Len(full) }
     /\ cut = (stream # full)
  /\ state = "run" /\ number = <<>> /\ start = 0 /\ need = 0 /\ run = <<>> /\ items = <<>>

Complete(d) == d # <<>> /\ Len(d) = Announced(d[1])
ReadDigit ==
  /\ state \in {"run", "start", "stop"} /\ stream # <<>> /\ ~Complete(number)
  /\ number' = Append(number, Head(stream)) /\ stream' = Tail(stream)
  /\ UNCHANGED <<patch, cut, state, start, need, run, items>>
HaveNumber ==
  /\ Complete(number)
  /\ number' = <<>>
  /\ LET v == Decode(number) IN
     CASE state = "run" ->
            IF Len(stream) < v
            THEN state' = "failed" /\ UNCHANGED <<stream, start, need, run, items>>
            ELSE state' = "bytes" /\ need' = v /\ run' = <<>> /\ UNCHANGED <<stream, start, items>>
       [] state = "start" -> state' = "stop" /\ start' = v /\ UNCHANGED <<stream, need, run, items>>
       [] state = "stop" ->
            /\ state' = "run"
            /\ items' = IF start = v THEN items ELSE Append(items, SpanItem(start, v))
            /\ UNCHANGED <<stream, start, need, run>>
  /\ UNCHANGED <<patch, cut>>
ReadByte ==
  /\ state = "bytes" /\ need > 0
  /\ need' = need - 1 /\ run' = Append(run, Head(stream)) /\ stream' = Tail(stream)
  /\ UNCHANGED <<patch, cut, state, number, start, items>>
RunRead ==
  /\ state = "bytes" /\ need = 0
  /\ items' = IF run = <<>> THEN items ELSE Append(items, RunItem(run))
  /\ state' = "start"
  /\ UNCHANGED <<patch, cut, stream, number, start, need, run>>
End ==
  /\ stream = <<>> /\ state \in {"run", "start", "stop"} /\ ~Complete(number)
  /\ state' = IF number = <<>> /\ state # "stop" THEN "done" ELSE "failed"
  /\ UNCHANGED <<patch, cut, stream, number, start, need, run, items>>
Next == ReadDigit \/ HaveNumber \/ ReadByte \/ RunRead \/ End
Spec == Init /\ [][Next]_vars

SomeRuns == { <<>>, <<7>>, <<0, 18>>, <<4, 4, 4, 4>> }

\* What is read is always a leading part, and a stream that was not cut off
\* gives everything.
ReadsLeading == Leading(items, NonEmpty(patch))
WholeReadsAll == ~cut => /\ state # "failed"
                         /\ state = "done" => items = NonEmpty(patch)

\* The integers by themselves.
Upto == Base * Base * Base + 2 * Base
Width == 5
Entry(v) == [v |-> Padded(DigitsOf(v), Width), enc |-> Encode(v),
             back |-> << Padded(DigitsOf(Decode(Encode(v))), Width) >>, rest |-> TRUE,
             cuts |-> \A n \in 1..(Len(Encode(v)) - 1) : ~Complete(SubSeq(Encode(v), 1, n))]
ASSUME \A k \in 0..(Upto \div 10) :
  Failing(IntClauses([i \in 1..11 |-> Entry(10 * k + i - 1)], Base, TRUE)) = {}
ASSUME \A p \in SeqsUpTo({ RunItem(<<>>), RunItem(<<1>>), SpanItem(0, 0), SpanItem(0, 1) }, 3) :
  Serialized(p) # <<>> \/ p = <<>>
=============================================================================
