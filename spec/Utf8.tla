-------------------------------- MODULE Utf8 ---------------------------------
(* How files are read: as UTF-8 if they are valid UTF-8 and else as           *)
(* ISO-8859-1, with every line ending read as a newline (C25, C27).           *)
EXTENDS Seqs

Step(c, b) ==
  IF c.need > 0 THEN
    IF b < 128 \/ b > 191 \/ b < c.lo \/ b > c.hi THEN [c EXCEPT !.ok = FALSE]
    ELSE LET cp == c.cp * 64 + (b - 128) IN
         IF c.need = 1 THEN [c EXCEPT !.need = 0, !.lo = 128, !.hi = 191, !.out = Put(@, cp)]
         ELSE [c EXCEPT !.need = @ - 1, !.cp = cp, !.lo = 128, !.hi = 191]
  ELSE IF b < 128 THEN [c EXCEPT !.out = Put(@, b)]
  ELSE IF b < 194 \/ b > 244 THEN [c EXCEPT !.ok = FALSE]
  ELSE IF b < 224 THEN [c EXCEPT !.need = 1, !.cp = b - 192]
  ELSE IF b < 240 THEN [c EXCEPT !.need = 2, !.cp = b - 224,
                                 !.lo = IF b = 224 THEN 160 ELSE 128,
                                 !.hi = IF b = 237 THEN 159 ELSE 191]
  ELSE [c EXCEPT !.need = 3, !.cp = b - 240,
                 !.lo = IF b = 240 THEN 144 ELSE 128,
                 !.hi = IF b = 244 THEN 143 ELSE 191]

Utf8(bytes) == FoldLeft(LAMBDA c, b : IF c.ok THEN Step(c, b) ELSE c,
                        [ok |-> TRUE, need |-> 0, cp |-> 0, lo |-> 128, hi |-> 191, out |-> Gathered],
                        bytes)
Decoded(bytes) == LET c == Utf8(bytes) IN IF c.ok /\ c.need = 0 THEN AllOf(c.out) ELSE bytes

\* \r\n and \r are read as \n.
Universal(t) ==
  AllOf(FoldLeft(LAMBDA c, x :
                   IF x = 13 THEN [out |-> Put(c.out, 10), cr |-> TRUE]
                   ELSE IF x = 10 /\ c.cr THEN [c EXCEPT !.cr = FALSE]
                   ELSE [out |-> Put(c.out, x), cr |-> FALSE],
                 [out |-> Gathered, cr |-> FALSE], t).out)

TextOfFile(bytes) == Universal(Decoded(bytes))
=============================================================================
