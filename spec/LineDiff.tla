------------------------------- MODULE LineDiff ------------------------------
(* Line-oriented diffs (C15).  A stream of a text-level diff or merge is a    *)
(* sequence of items [k, t, d] (see Diff).  A line-oriented one is a sequence *)
(* of items [k, t, d] whose sides t and d are sequences of parts [h, t]:      *)
(* h = 1: highlighted text, which belongs to that side only; h = 0: text that *)
(* is common.  For k = 0: t = d.                                              *)
EXTENDS Diff

NL == 10
EndsLine(t) == t # <<>> /\ t[Len(t)] = NL
TextOf(parts) == Flat([i \in DOMAIN parts |-> parts[i].t])
Plain(parts) == TextOf(SelectSeq(parts, LAMBDA x : x.h = 0))

\* A side character by character: << character, whether it is common >>.
Marked(t, h) == [i \in DOMAIN t |-> << t[i], h >>]
StreamSide(items, Side(_)) ==
  Flat([i \in DOMAIN items |-> Marked(Side(items[i]), items[i].k)])
LineSide(items, Side(_)) ==
  Flat([i \in DOMAIN items |->
          LET ps == Side(items[i]) IN
          Flat([j \in DOMAIN ps |-> Marked(ps[j].t, IF items[i].k = 0 THEN 0 ELSE ps[j].h)])])

\* The same but for at most one newline at the very end.
SameSide(wanted, got) ==
  \/ got = wanted
  \/ /\ Len(got) = Len(wanted) + 1
     /\ SubSeq(got, 1, Len(wanted)) = wanted
     /\ got[Len(got)][1] = NL

LineDiffClauses(items, lined) ==
  [intoside |-> SameSide(StreamSide(items, LAMBDA x : x.t), LineSide(lined, LAMBDA x : x.t)),
   fromside |-> SameSide(StreamSide(items, LAMBDA x : x.d), LineSide(lined, LAMBDA x : x.d)),
   wholelines |-> \A i \in DOMAIN lined :
                    \A t \in { TextOf(lined[i].t), TextOf(lined[i].d) } :
                       t = <<>> \/ EndsLine(t),
   sameplain |-> \A i \in DOMAIN lined : Plain(lined[i].t) = Plain(lined[i].d)]

ConsolidatedClauses(lined) ==
  [notadjacent |-> \A i \in 1..(Len(lined) - 1) : ~(lined[i].k = 1 /\ lined[i + 1].k = 1)]

-----------------------------------------------------------------------------
(* How it is done: lines are accumulated until they are complete.             *)
Blank(t) == \A i \in DOMAIN t : t[i] \in {NL, 32}
High(t) == [h |-> 1, t |-> t]
Low(t)  == [h |-> 0, t |-> t]
LineText(t) == [k |-> 0, t |-> << Low(t) >>, d |-> << Low(t) >>]
Emit(out, t) == IF t = <<>> THEN out ELSE Append(out, LineText(t))

Empty == [into |-> <<>>, from |-> <<>>, fin |-> TRUE, in |-> FALSE, out |-> <<>>]

AddChange(c, x) ==
  [c EXCEPT !.into = Append(@, High(x.t)), !.from = Append(@, High(x.d)), !.in = TRUE,
            !.fin = (IF x.t = <<>> THEN c.fin ELSE EndsLine(x.t))
                    /\ (IF x.d = <<>> THEN c.fin ELSE EndsLine(x.d))]
AddText(c, t) ==
  [c EXCEPT !.into = Append(@, Low(t)), !.from = Append(@, Low(t)),
            !.fin = IF t = <<>> THEN @ ELSE EndsLine(t)]
\* The change is complete; t is what completes its line if it needs that.
FinishChange(c, t) ==
  LET full == IF ~c.fin /\ t # <<>> THEN AddText(c, t) ELSE c
      rest == IF c.fin THEN t ELSE <<>>
  IN [full EXCEPT !.into = <<>>, !.from = <<>>, !.in = FALSE,
                  !.out = Emit(Append(@, [k |-> 1, t |-> full.into, d |-> full.from]), rest)]

Take(c, x) ==
  IF x.k = 1 THEN AddChange(c, x)
  ELSE IF c.in /\ Blank(x.t) THEN AddText(c, x.t)
  ELSE
    LET e == IF c.fin /\ c.into # <<>> THEN FinishChange(c, <<>>) ELSE c
        newlines == { i \in DOMAIN x.t : x.t[i] = NL }
    IN IF newlines = {} THEN AddText(e, x.t)
       ELSE LET first == MinOf(newlines)
                last == MaxOf(newlines)
                head == SubSeq(x.t, 1, first)
                body == SubSeq(x.t, first + 1, last)
                tail == SubSeq(x.t, last + 1, Len(x.t))
                f == IF e.in THEN LET g == FinishChange(e, head) IN [g EXCEPT !.out = Emit(@, body)]
                     ELSE [e EXCEPT !.out = Emit(@, head \o body)]
            IN IF tail = <<>> THEN f ELSE AddText(f, tail)

FlushLines(c) ==
  IF c.in THEN FinishChange(c, IF c.fin THEN <<>> ELSE << NL >>)
  ELSE IF c.from # <<>> THEN [Empty EXCEPT !.out = Emit(c.out, TextOf(c.from) \o << NL >>)]
  ELSE c

ConsolidateLines(lined) ==
  FoldLeft(LAMBDA acc, x :
             IF x.k = 1 /\ acc # <<>> /\ acc[Len(acc)].k = 1
             THEN [acc EXCEPT ![Len(acc)].t = @ \o x.t, ![Len(acc)].d = @ \o x.d]
             ELSE Append(acc, x), <<>>, lined)

LineDiffOf(items) == FlushLines(FoldLeft(Take, Empty, items)).out
=============================================================================
