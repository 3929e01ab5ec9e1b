---------------------------- MODULE TokensMachine ----------------------------
(* A tokenizer that interns pieces of text: a token is a piece's number.      *)
EXTENDS Tokens
CONSTANTS Char,      \* 10 is the newline, below 10 are word characters
          MaxText, MaxTexts
VARIABLES mode,      \* "char", "line" or "symbol"
          dict,      \* the pieces known so far
          log        \* the texts encoded so far: [text, tokens]
vars == <<mode, dict, log>>

\* Whether a piece ends behind character x when y follows.
Ends(x, y) == CASE mode = "char" -> TRUE
                [] mode = "line" -> x = 10
                [] mode = "symbol" -> ~(x < 10 /\ y < 10)

Pieces(text) ==
  FoldLeft(LAMBDA ps, i : IF i = 1 \/ Ends(text[i - 1], text[i])
                          THEN Append(ps, << text[i] >>)
                          ELSE [ps EXCEPT ![Len(ps)] = Append(@, text[i])],
           <<>>, [i \in DOMAIN text |-> i])

Intern(d, ps) == FoldLeft(LAMBDA e, p : IF p \in Elems(e) THEN e ELSE Append(e, p), d, ps)
NumberOf(d, p) == CHOOSE i \in DOMAIN d : d[i] = p
Encoded(d, text) == LET ps == Pieces(text) IN [i \in DOMAIN ps |-> NumberOf(d, ps[i])]

Init == mode \in {"char", "line", "symbol"} /\ dict = <<>> /\ log = <<>>
Encode(text) ==
  /\ Len(log) < MaxTexts
  /\ dict' = Intern(dict, Pieces(text))
  /\ log' = Append(log, [text |-> text, tokens |-> Encoded(dict', text)])
  /\ UNCHANGED mode
Next == \E text \in SeqsUpTo(Char, MaxText) : Encode(text)
Spec == Init /\ [][Next]_vars

Session ==
  [texts   |-> [i \in DOMAIN log |-> log[i].text],
   tokens  |-> [i \in DOMAIN log |-> log[i].tokens],
   decoded |-> [i \in DOMAIN log |-> << Spell(log[i].tokens, dict) >>],
   pieces  |-> [i \in DOMAIN log |-> [k \in DOMAIN log[i].tokens |-> dict[log[i].tokens[k]]]],
   spans   |-> Flat([i \in DOMAIN log |->
                 LET n == Len(log[i].tokens)
                     span(s, e) == LET ts == Slice(log[i].tokens, s, e) IN
                                   [i |-> i, s |-> s, e |-> e, text |-> Spell(ts, dict),
                                    tokens |-> Encoded(dict, Spell(ts, dict))]
                 IN Flat([s \in 1..(n + 1) |-> [e \in 1..(n - s + 2) |-> span(s - 1, s + e - 2)]])])]

SessionIsRight == Failing(SessionClauses(Session)) = {}

\* Diffs of the last two texts, and merges of the last three.
Recent(k) == log[Len(log) + 1 - k]
DiffSpells == Len(log) >= 2 =>
  LET items == SpellItems(DiffOf(Recent(2).tokens, Recent(1).tokens), dict) IN
  Failing(TextDiffClauses(Recent(2).text, Recent(1).text, items, items)) = {}
=============================================================================
