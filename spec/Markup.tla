------------------------------- MODULE Markup --------------------------------
(* Rendering with any markup (C26).  An item is [k, t, d]; its sides t and d   *)
(* are sequences of nested items [k, t, d], whose sides are texts.  A markup   *)
(* is [ip, is, fp, fs, sep]: prefix and suffix of the inserted (into) and of   *)
(* the deleted (from) side, and what separates them.                           *)
EXTENDS Rich

\* The escaping function: characters of esc are put between & and ;
Escaped(t, esc) == Flat([i \in DOMAIN t |->
  IF t[i] \in esc THEN << 38, t[i], 59 >> ELSE << t[i] >>])

\* An empty side may have its markers (always) or not.
Marked2(p, t, s, empty, always) == IF empty /\ ~always THEN <<>> ELSE p \o t \o s
Nested(items, m, esc, always) ==
  Flat([i \in DOMAIN items |->
    LET x == items[i] IN
    IF x.k = 0 THEN Escaped(x.t, esc)
    ELSE Marked2(m.ip, Escaped(x.t, esc), m.is, x.t = <<>>, always) \o m.sep
         \o Marked2(m.fp, Escaped(x.d, esc), m.fs, x.d = <<>>, always)])
Rendered(items, m0, m1, esc, always) ==
  Flat([i \in DOMAIN items |->
    LET x == items[i] IN
    IF x.k = 0 THEN Nested(x.t, m1, esc, always)
    ELSE Marked2(m0.ip, Nested(x.t, m1, esc, always), m0.is, x.t = <<>>, always) \o m0.sep
         \o Marked2(m0.fp, Nested(x.d, m1, esc, always), m0.fs, x.d = <<>>, always)])

HasText(t, p) == Occurrences(p, t) # {}
RenderClauses(out, items, m0, m1, esc, header) ==
  [rendered |-> \E always \in BOOLEAN :
     LET body == Rendered(items, m0, m1, esc, always)
         n == Len(out) - Len(body)
     IN IF n < 0 THEN FALSE
        ELSE /\ Slice(out, n, Len(out)) = body
             /\ IF header = <<>> THEN n = 0 ELSE HasText(Slice(out, 0, n), header)]

-----------------------------------------------------------------------------
(* What a tool shows: bodies, each behind a header if there is more than one.  *)
RECURSIVE EndsAt(_, _, _, _)
\* Where the first n bodies can end in out.
EndsAt(out, bodies, names, n) ==
  IF n = 0 THEN {0}
  ELSE LET before == EndsAt(out, bodies, names, n - 1)
           b == bodies[n]
       IN { q + Len(b) : q \in { x \in Occurrences(b, out) :
              \E p \in before : /\ p + Len(names[n]) <= x /\ x <= p + Len(names[n]) + 30
                                /\ HasText(Slice(out, p, x), names[n]) } }
ShowsBodies(out, bodies, names) ==
  IF Len(bodies) = 1 THEN out = bodies[1]
  ELSE Len(out) \in EndsAt(out, bodies, names, Len(bodies))
=============================================================================
