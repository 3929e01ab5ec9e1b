------------------------------- MODULE Manifest ------------------------------
(* Manifests (C24): a manifest maps names to item versions.  Entries are      *)
(* << name, item >>.  An addition is [base, entries, new]: the number of the  *)
(* manifest it is based on (0: none), its entries, and the << item, content >>*)
(* of the items that were not stored before.                                  *)
EXTENDS Versions

\* State: ms: the manifests' entries; items: set of [item, content, bases].
Nothing == [ms |-> <<>>, items |-> {}]
Stored(s) == { x.item : x \in s.items }
EntriesOf(s, m) == IF m = 0 THEN {} ELSE Elems(s.ms[m])

\* What a new item may be recorded as based on: the item of one of its names in
\* the base manifest; nothing (0) if there is a name that is not there.
BasesFor(s, base, entries, item) ==
  { LET there == { b \in EntriesOf(s, base) : b[1] = e[1] } IN
    IF there = {} THEN 0 ELSE (CHOOSE b \in there : TRUE)[2]
    : e \in { x \in Elems(entries) : x[2] = item } }

AfterManifest(s, e) ==
  [ms    |-> Append(s.ms, e.entries),
   items |-> s.items \cup { [item |-> x[1], content |-> x[2],
                             bases |-> BasesFor(s, e.base, e.entries, x[1])]
                            : x \in { y \in Elems(e.new) : y[1] \notin Stored(s) } }]

\* reads: << manifest, entries >>; gets: << item, content >>; bases: << item, base >>;
\* mbases: << manifest, base >> must be as in based.
ManifestClauses(s, reads, gets, bases) ==
  [manifests |-> \A i \in DOMAIN reads : Elems(reads[i][2]) = Elems(s.ms[reads[i][1]])
                                         /\ Len(reads[i][2]) = Len(s.ms[reads[i][1]]),
   items |-> \A i \in DOMAIN gets :
               \E x \in s.items : x.item = gets[i][1] /\ x.content = gets[i][2],
   bases |-> \A i \in DOMAIN bases :
               \E x \in s.items : x.item = bases[i][1] /\ bases[i][2] \in x.bases]

-----------------------------------------------------------------------------
(* Additions that fail (C32).  An attempt is [base, entries, offered]: the     *)
(* base is 0 as well when it is not a manifest that is stored; offered: the    *)
(* << item, content >> of the items that were not stored and were given.       *)
(* It leaves no manifest; of what was offered, any may be stored: found.      *)
AfterAttempt(s, e, found) ==
  [s EXCEPT !.items = @ \cup { [item |-> x[1], content |-> x[2],
                               bases |-> BasesFor(s, e.base, e.entries, x[1])] : x \in found }]

\* found: the << item, content >> among the attempt's new items that are there
\* now; there: the tags of manifests that are there.
AttemptClauses(s, e) ==
  [offered |-> Elems(e.found) \subseteq Elems(e.offered),
   nothingelse |-> \A i \in DOMAIN e.gets : e.gets[i][2] = 0,
   tags |-> Elems(e.there) = DOMAIN s.ms]
=============================================================================
