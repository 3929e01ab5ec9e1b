-------------------------------- MODULE Rich ---------------------------------
(* The markup language of the console, and texts written in it (C26, C27).    *)
EXTENDS LineDiff

BS == 92    \* \
LB == 91    \* [
RB == 93    \* ]
SL == 47    \* /

\* How a text is written so that it is no markup, whatever follows it.
RunsEnd(s, i) == \* the first position behind a run of backslashes
  MinOf({ j \in i..(Len(s) + 1) : IF j > Len(s) THEN TRUE ELSE s[j] # BS })
NoTag == << LB, 110, 111, 110, 101, RB, LB, SL, RB >>     \* [none][/]
RECURSIVE EscapeFrom(_, _)
EscapeFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = LB THEN << BS, LB >> \o EscapeFrom(s, i + 1)
  ELSE IF s[i] = BS THEN
    LET j == RunsEnd(s, i)
        run == SubSeq(s, i, j - 1)
        tagged == IF j > Len(s) THEN TRUE ELSE s[j] = LB
    IN (IF tagged THEN run \o run \o NoTag ELSE run) \o EscapeFrom(s, j)
  ELSE << s[i] >> \o EscapeFrom(s, i + 1)
RichEscape(s) == EscapeFrom(s, 1)

\* What the console makes of one call.
TagStart(x) == (x >= 97 /\ x <= 122) \/ x \in {35, SL, 64}
\* The end of the tag that is at p, with its backslashes; 0: there is none.
TagEnd(m, p) ==
  LET b == RunsEnd(m, p) IN
  IF b + 2 > Len(m) THEN 0
  ELSE IF m[b] # LB \/ ~TagStart(m[b + 1]) THEN 0
  ELSE LET stops == { q \in (b + 2)..Len(m) : m[q] \in {LB, RB} } IN
       IF stops = {} THEN 0
       ELSE IF m[MinOf(stops)] = RB THEN MinOf(stops) ELSE 0
\* Within text, \[ is [.
RECURSIVE Unbracket(_, _)
Unbracket(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] = BS /\ i < Len(t) THEN
         IF t[i + 1] = LB THEN << LB >> \o Unbracket(t, i + 2)
         ELSE << BS >> \o Unbracket(t, i + 1)
  ELSE << t[i] >> \o Unbracket(t, i + 1)

RECURSIVE ParseFrom(_, _, _)
ParseFrom(m, p, c) ==
  LET found == { q \in p..Len(m) : TagEnd(m, q) # 0 } IN
  IF found = {} THEN [c EXCEPT !.text = @ \o Unbracket(SubSeq(m, p, Len(m)), 1)]
  ELSE LET s == MinOf(found)
           e == TagEnd(m, s)
           b == RunsEnd(m, s)
           n == b - s
           before == c.text \o Unbracket(SubSeq(m, p, s - 1), 1)
                     \o [i \in 1..(n \div 2) |-> BS]
       IN ParseFrom(m, e + 1,
            IF n % 2 = 1 THEN [c EXCEPT !.text = before \o SubSeq(m, b, e)]
            ELSE IF m[b + 1] # SL THEN [c EXCEPT !.text = before, !.open = @ + 1]
            ELSE IF c.open = 0 THEN [c EXCEPT !.text = before, !.ok = FALSE]
            ELSE [c EXCEPT !.text = before, !.open = @ - 1])
Shown(m) ==
  IF ~(\E i \in DOMAIN m : m[i] = LB) THEN [text |-> m, open |-> 0, ok |-> TRUE]
  ELSE ParseFrom(m, 1, [text |-> <<>>, open |-> 0, ok |-> TRUE])

\* The calls that print a stream or a line-oriented one.
Tagged(name, t) == << LB >> \o name \o << RB >> \o t \o << LB, SL, RB >>
Green == << 103, 52 >>
Light == << 108, 95, 103 >>
Call(x) == IF x = <<>> THEN <<>> ELSE << x >>
StreamCalls(items) ==
  Flat([i \in DOMAIN items |->
    IF items[i].k = 0 THEN << RichEscape(items[i].t) >>
    ELSE Call(IF items[i].t = <<>> THEN <<>> ELSE Tagged(Green, RichEscape(items[i].t)))
         \o Call(IF items[i].d = <<>> THEN <<>> ELSE Tagged(Green, RichEscape(items[i].d)))])
SideCall(parts) ==
  Tagged(Green, Flat([j \in DOMAIN parts |->
    IF parts[j].h = 0 THEN RichEscape(parts[j].t)
    ELSE IF parts[j].t = <<>> THEN <<>> ELSE Tagged(Light, RichEscape(parts[j].t))]))
LineCalls(lined) ==
  Flat([i \in DOMAIN lined |->
    IF lined[i].k = 0 THEN << RichEscape(TextOf(lined[i].t)) >>
    ELSE << SideCall(lined[i].t), SideCall(lined[i].d) >>])

\* What is to be seen.
Body(items) == Flat([i \in DOMAIN items |->
  IF items[i].k = 0 THEN items[i].t ELSE items[i].t \o items[i].d])
LineBody(lined) == Flat([i \in DOMAIN lined |->
  IF lined[i].k = 0 THEN TextOf(lined[i].t) ELSE TextOf(lined[i].t) \o TextOf(lined[i].d)])
=============================================================================
