------------------------------ MODULE GitFormat ------------------------------
(* Git's form of conflicts (C25): what a reader makes of the lines of a text. *)
EXTENDS LineDiff

LinesOf(t) ==
  LET places == [i \in DOMAIN t |-> i]
      ends == SelectSeq(places, LAMBDA i : t[i] = NL \/ i = Len(t))
  IN [k \in DOMAIN ends |-> SubSeq(t, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k])]

Seven(x) == [i \in 1..7 |-> x]
IsMark(line, x) == Len(line) >= 7 /\ SubSeq(line, 1, 7) = Seven(x)
AnyMark(line) == \E x \in {60, 61, 62} : IsMark(line, x)
NamedMark(x, name) == Seven(x) \o << 32 >> \o name \o << NL >>
MiddleMark == Seven(61) \o << NL >>

\* The lines with marks come in threes, the k-th block being that of
\* marks[3k - 2], marks[3k - 1] and marks[3k].  first, second: the lines with
\* the first and the second part of every block.
ReadGit(t, into, from) ==
  LET lines == LinesOf(t)
      marks == SelectSeq([i \in DOMAIN lines |-> i], LAMBDA i : AnyMark(lines[i]))
      n == Len(marks)
      blocks == n \div 3
      Expected(k) == CASE k % 3 = 1 -> NamedMark(60, into) [] k % 3 = 2 -> MiddleMark
                       [] OTHER -> NamedMark(62, from)
      Outside(k) == \* the lines between block k and the next one
        SubSeq(lines, IF k = 0 THEN 1 ELSE marks[3 * k] + 1,
               IF k = blocks THEN Len(lines) ELSE marks[3 * k + 1] - 1)
      Part(k, which) == SubSeq(lines, marks[3 * k - 3 + which] + 1, marks[3 * k - 2 + which] - 1)
      Reading(which) == Flat([k \in 1..(blocks + 1) |->
                                IF k = 1 THEN Outside(0) ELSE Part(k - 1, which) \o Outside(k - 1)])
  IN IF n % 3 # 0 \/ \E k \in 1..n : lines[marks[k]] # Expected(k)
     THEN [ok |-> FALSE, blocks |-> 0, first |-> <<>>, second |-> <<>>]
     ELSE [ok |-> TRUE, blocks |-> blocks, first |-> Reading(1), second |-> Reading(2)]

SameText(wanted, got) == got = wanted \/ got = Append(wanted, NL)

\* Texts that have lines like git's marks cannot be told from marks.
Readable(t) == LET ls == LinesOf(t) IN \A i \in DOMAIN ls : ~AnyMark(ls[i])

\* conflicts: whether there are any.
GitClauses(out, intoText, fromText, into, from, conflicts) ==
  IF ~Readable(intoText) \/ ~Readable(fromText) THEN [readable |-> TRUE]
  ELSE LET g == ReadGit(out, into, from) IN
       [marks    |-> g.ok,
        firsts   |-> SameText(intoText, Flat(g.first)),
        seconds  |-> SameText(fromText, Flat(g.second)),
        noblocks |-> ~conflicts => g.blocks = 0]

\* How it is written.
WriteGit(lined, into, from) ==
  Flat([i \in DOMAIN lined |->
    IF lined[i].k = 0 THEN TextOf(lined[i].t)
    ELSE NamedMark(60, into) \o TextOf(lined[i].t) \o MiddleMark
         \o TextOf(lined[i].d) \o NamedMark(62, from)])
=============================================================================
