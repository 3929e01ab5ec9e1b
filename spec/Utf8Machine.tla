----------------------------- MODULE Utf8Machine -----------------------------
(* Files are written character by character, and maybe broken.                *)
EXTENDS Utf8
CONSTANTS MaxChars
SmallParts == 2
VARIABLES text, bytes, broken
vars == <<text, bytes, broken>>

\* The characters at which the encoding changes, and line endings.
Chars == {10, 13, 97, 127, 128, 255, 2047, 2048, 4095, 4096, 55295, 57344, 65535, 65536, 262143,
          262144, 1114111}
Encoding(c) ==
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
  ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
\* What is not UTF-8 wherever it is: surrogates, too large, too long, cut off.
Bad == { << 237, 160, 128 >>, << 237, 191, 191 >>, << 244, 144, 128, 128 >>, << 245, 128, 128, 128 >>,
         << 192, 128 >>, << 193, 191 >>, << 224, 159, 191 >>, << 240, 143, 191, 191 >>,
         << 128 >>, << 255 >>, << 254 >> }
       \cup { SubSeq(Encoding(c), 1, n) \o e : c \in { x \in Chars : x > 65535 }, n \in 1..3,
                                               e \in { <<>>, << 10 >> } }

Init == text = <<>> /\ bytes = <<>> /\ broken = FALSE
Write(c) == /\ text' = Append(text, c) /\ bytes' = bytes \o Encoding(c) /\ UNCHANGED broken
Break(b) == bytes' = bytes \o b /\ broken' = TRUE /\ UNCHANGED text
Next == Len(text) < MaxChars /\ ((\E c \in Chars : Write(c)) \/ (\E b \in Bad : ~broken /\ Break(b)))
Spec == Init /\ [][Next]_vars

Read == Decoded(bytes) = IF broken THEN bytes ELSE text
NoCarriage == ~(\E i \in DOMAIN TextOfFile(bytes) : TextOfFile(bytes)[i] = 13)
OtherwiseKept == ~(\E i \in DOMAIN bytes : bytes[i] = 13) => TextOfFile(bytes) = Decoded(bytes)
=============================================================================
