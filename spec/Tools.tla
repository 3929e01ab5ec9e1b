-------------------------------- MODULE Tools --------------------------------
(* The command-line tools (C25, C26, C27).  A run is described by             *)
(*   files     the bytes of the files: original, modified or                  *)
(*             parent, from branch, into branch                               *)
(*   texts     their texts                                                    *)
(*   streams   the diffs and merges to be shown, last the main one            *)
(*   lined     their line-oriented form                                       *)
(*   lines, git   which form is shown                                         *)
(*   into, from   the names for each of them; names: those of the headers     *)
(*   out       the text that was shown                                        *)
(* Streams may also be shown without a tool; then there are no files.         *)
EXTENDS Markup, Utf8, GitFormat

BodyOf(r, i) == IF r.git THEN WriteGit(r.lined[i], r.into[i], r.from[i])
                ELSE IF r.lines THEN LineBody(r.lined[i])
                ELSE Body(r.streams[i])

MainStream(r) == r.streams[Len(r.streams)]
Conflicts(items) == \E i \in DOMAIN items : items[i].k = 1

ReadingClauses(r) ==
  [reading |-> \A i \in DOMAIN r.files : r.texts[i] = TextOfFile(r.files[i]),
   sides |-> IF Len(r.texts) = 0 THEN TRUE
             ELSE IF Len(r.texts) = 2 THEN Old(MainStream(r)) = r.texts[1]
                                      /\ New(MainStream(r)) = r.texts[2]
             ELSE IF r.texts[1] = r.texts[2] THEN Body(MainStream(r)) = r.texts[3]
             ELSE IF r.texts[1] = r.texts[3] THEN Body(MainStream(r)) = r.texts[2]
             ELSE TRUE]
ShownClauses(r) ==
  [shown |-> ShowsBodies(r.out, [i \in DOMAIN r.streams |-> BodyOf(r, i)], r.names)]

\* A run in git's form; with headers, the parts are known.
OwnLines(out) ==
  LET ls == LinesOf(out) IN
  \A i \in DOMAIN ls : \A x \in {60, 62} : HasText(ls[i], Seven(x)) => IsMark(ls[i], x)
GitRun(r) ==
  IF Len(r.streams) > 1 THEN
    ShownClauses(r) @@
    [marks |-> (\A i \in DOMAIN r.texts : \A x \in {60, 62} : ~HasText(r.texts[i], Seven(x)))
               => OwnLines(r.out)]
  ELSE GitClauses(r.out, IF Len(r.texts) = 2 THEN r.texts[2] ELSE New(MainStream(r)),
             IF Len(r.texts) = 2 THEN r.texts[1] ELSE Old(MainStream(r)),
             r.into[1], r.from[1], Conflicts(MainStream(r)))
=============================================================================
