---------------------------- MODULE MarkupMachine ----------------------------
(* A stream with nested changes is rendered item by item, and read again.     *)
EXTENDS Markup
CONSTANTS Char, MaxItems
VARIABLES items, out
vars == <<items, out>>

\* 38 & and 59 ; are what the escaping function adds.
Esc == {38, 1}
M0 == [ip |-> << 100 >>, is |-> << 101 >>, fp |-> << 102 >>, fs |-> << 103 >>, sep |-> << 104 >>]
M1 == [ip |-> << 110 >>, is |-> << 111 >>, fp |-> << 112 >>, fs |-> << 113 >>, sep |-> << 114 >>]

Texts == SeqsUpTo(Char, 1)
Sides == {<<>>} \cup { << Keep(t) >> : t \in Texts \ {<<>>} }
         \cup { << Keep(t), Change(u, <<>>) >> : t \in Texts \ {<<>>}, u \in Texts }
         \cup { << Change(t, u) >> : t \in Texts, u \in Texts }
Items == { Keep(<< Keep(t) >>) : t \in Texts }
         \cup { Change(t, u) : t \in Sides, u \in Sides }

Init == items = <<>> /\ out \in { [always |-> b, text |-> <<>>] : b \in BOOLEAN }
Next == /\ Len(items) < MaxItems
        /\ \E x \in Items :
             /\ items' = Append(items, x)
             /\ out' = [out EXCEPT !.text = @ \o Rendered(<< x >>, M0, M1, Esc, out.always)]
Spec == Init /\ [][Next]_vars

WholeRendered == out.text = Rendered(items, M0, M1, Esc, out.always)

\* Read: which characters are shown within which marks, and that marks match.
RECURSIVE ReadFrom(_, _, _)
ReadFrom(t, i, c) ==
  IF i > Len(t) \/ ~c.ok THEN c
  ELSE LET x == t[i]
           push(f) == [c EXCEPT !.in = Append(@, f)]
           pop(f) == IF c.in # <<>> /\ c.in[Len(c.in)] = f
                     THEN [c EXCEPT !.in = SubSeq(@, 1, Len(@) - 1)] ELSE [c EXCEPT !.ok = FALSE]
       IN IF x = 38 THEN ReadFrom(t, i + 3, [c EXCEPT !.shown = Append(@, << t[i + 1], c.in >>),
                                                      !.ok = t[i + 1] \in Esc /\ t[i + 2] = 59])
          ELSE ReadFrom(t, i + 1,
            IF x \in {100, 102, 110, 112} THEN push(x)
            ELSE IF x \in {101, 103, 111, 113} THEN pop(x - 1)
            ELSE IF x = 104 THEN [c EXCEPT !.ok = c.in = <<>>]
            ELSE IF x = 114 THEN c
            ELSE [c EXCEPT !.shown = Append(@, << x, c.in >>), !.ok = x \notin Esc])
ReadBack(t) == ReadFrom(t, 1, [ok |-> TRUE, in |-> <<>>, shown |-> <<>>])

With(t, in) == [i \in DOMAIN t |-> << t[i], in >>]
SideShown(side, in) == Flat([i \in DOMAIN side |->
  IF side[i].k = 0 THEN With(side[i].t, in)
  ELSE With(side[i].t, Append(in, 110)) \o With(side[i].d, Append(in, 112))])
AllShown == Flat([i \in DOMAIN items |->
  IF items[i].k = 0 THEN SideShown(items[i].t, <<>>)
  ELSE SideShown(items[i].t, << 100 >>) \o SideShown(items[i].d, << 102 >>)])
ShownOnce == LET c == ReadBack(out.text) IN c.ok /\ c.in = <<>> /\ c.shown = AllShown
=============================================================================
