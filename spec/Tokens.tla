-------------------------------- MODULE Tokens -------------------------------
(* Tokenisation (C13) and text-level diffs and merges (C14).  A text is a    *)
(* sequence of numbers (code points or bytes).                               *)
EXTENDS Merge

\* What a list of tokens stands for when pieceOf[t] is the text of token t.
Spell(tokens, pieceOf) == Flat([i \in DOMAIN tokens |-> pieceOf[tokens[i]]])
SpellItems(items, pieceOf) ==
  [i \in DOMAIN items |-> [k |-> items[i].k, t |-> Spell(items[i].t, pieceOf),
                           d |-> Spell(items[i].d, pieceOf)]]

(* A session with one tokenizer: the texts that were encoded, in order;      *)
(* tokens[i]: the tokens of texts[i]; pieces[i]: its tokens decoded one by    *)
(* one; decoded[i]: what decoding texts[i] gave (several times); spans: list  *)
(* of [i, s, e, text, tokens]: tokens s..e of text i decoded to text, which   *)
(* then was encoded to tokens.                                                *)
Consistent(tokens, pieces) ==
  LET uses == UNION { { << tokens[i][k], pieces[i][k] >> : k \in DOMAIN tokens[i] }
                      : i \in DOMAIN tokens }
  IN Cardinality({ u[1] : u \in uses }) = Cardinality(uses)
     /\ Cardinality({ u[2] : u \in uses }) = Cardinality(uses)

SessionClauses(s) ==
  [lossless   |-> \A i \in DOMAIN s.texts :
                    \A k \in DOMAIN s.decoded[i] : s.decoded[i][k] = s.texts[i],
   pieces     |-> \A i \in DOMAIN s.texts : Len(s.pieces[i]) = Len(s.tokens[i])
                                            /\ Flat(s.pieces[i]) = s.texts[i],
   consistent |-> Consistent(s.tokens, s.pieces),
   spans      |-> \A k \in DOMAIN s.spans :
                    LET x == s.spans[k] IN
                    x.text = Flat(Slice(s.pieces[x.i], x.s, x.e)),
   reencode   |-> \A k \in DOMAIN s.spans :
                    LET x == s.spans[k] IN
                    x.tokens = Slice(s.tokens[x.i], x.s, x.e)]

\* Lines: decoding lists the lines, encoded[i] the numbers (from 0) of those of
\* texts[i]; 10 is the newline.
Join(ss, sep) == Flat([i \in DOMAIN ss |-> IF i = 1 THEN ss[1] ELSE << sep >> \o ss[i]])
LineClauses(l) ==
  [lines    |-> \A i \in DOMAIN l.texts :
                  /\ \A k \in DOMAIN l.encoded[i] : l.encoded[i][k] \in 0..(Len(l.decoding) - 1)
                  /\ Join([k \in DOMAIN l.encoded[i] |-> l.decoding[l.encoded[i][k] + 1]], 10)
                       = l.texts[i],
   distinct |-> Cardinality(Elems(l.decoding)) = Len(l.decoding),
   single   |-> \A k \in DOMAIN l.decoding : 10 \notin Elems(l.decoding[k])]

(* A text-level diff of a and b, and a text-level merge: tm is the merge of   *)
(* the token sequences, of tokens with the given pieces.  again: what the     *)
(* same call gives with no call before it.                                    *)
TextDiffClauses(a, b, items, again) ==
  [modified |-> New(items) = b, original |-> Old(items) = a, history |-> items = again]
TextMergeClauses(tm, pieceOf, items, again) ==
  [spelled |-> items = SpellItems(tm, pieceOf), history |-> items = again]
=============================================================================
