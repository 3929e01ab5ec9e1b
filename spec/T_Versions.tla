------------------------------ MODULE T_Versions -----------------------------
(* Recorded histories of stores and trees.  r.events: additions [op, base,    *)
(* content, failed] with what was observed after each, or several additions   *)
(* [op "adds", added, contents, failed] with what was observed after the last.*)
EXTENDS Trees, TraceBase

After(h, e) ==
  IF e.op = "add" THEN Append(h, Version(e.base, e.content))
  ELSE IF e.op = "adds" THEN h \o [i \in DOMAIN e.added |-> Version(e.added[i], e.contents[i])]
  ELSE h
AsAllowed(e) == IF e.op \in {"add", "adds"} /\ e.failed THEN {"accepts"}
                ELSE IF e.op = "reject" /\ ~e.failed THEN {"rejects"} ELSE {}

\* J(h, e): the clauses that the observations of event e break after history h.
Judge(events, J(_, _)) ==
  FoldLeft(LAMBDA s, e : LET h == After(s.h, e) IN
                         [h |-> h, bad |-> s.bad \cup AsAllowed(e) \cup J(h, e)],
           [h |-> <<>>, bad |-> {}], events).bad

RunsVerdictOf(r, J(_, _)) ==
  IF r.error # "" THEN {"completes"}
  ELSE UNION { Judge(r.runs[i], J) : i \in DOMAIN r.runs }

\* C16
GetVerdict(r) ==
  RunsVerdictOf(r, LAMBDA h, e : Failing(GetClauses(h, e.gets)))
\* C17; runs: the same history with both kinds of storage.
InfoVerdict(r) ==
  RunsVerdictOf(r, LAMBDA h, e : Failing(HasClauses(h, e.has))
                                 \cup Failing(InfoClauses(h, e.infos, r.size)))
  \cup (IF r.error # "" THEN {}
        ELSE Failing([samestorage |-> \A i \in DOMAIN r.runs :
               [k \in DOMAIN r.runs[i] |-> r.runs[i][k].infos]
                 = [k \in DOMAIN r.runs[1] |-> r.runs[1][k].infos]]))
\* C18; twin: the last observations of a store in which the rejected additions
\* were not attempted.
RejectVerdict(r) ==
  RunsVerdictOf(r, LAMBDA h, e :
    Failing(GetClauses(h, e.gets)) \cup Failing(HasClauses(h, e.has))
    \cup Failing([base |-> \A i \in DOMAIN e.infos :
                    e.infos[i].known = (e.infos[i].v \in DOMAIN h)
                    /\ (e.infos[i].known => e.infos[i].base = h[e.infos[i].v].base)]))
  \cup (IF r.error # "" THEN {}
        ELSE Failing([asifnot |-> \A i \in DOMAIN r.runs :
               LET last == r.runs[i][Len(r.runs[i])] IN
               << last.gets, last.has, last.infos, last.paths >> = r.twins[i]]))
\* C19
LayoutVerdict(r) ==
  RunsVerdictOf(r, LAMBDA h, e :
    Failing(LinearClauses(h, e.paths)) \cup Failing(RepeatClauses(e.paths))
    \cup Failing(StorageClauses(h, e.verbatim, e.written)))
\* C31; looks [op "look"] at some versions by some of the stores.
ClientsVerdict(r) ==
  RunsVerdictOf(r, LAMBDA h, e :
    Failing(GetClauses(h, e.gets)) \cup Failing(HasClauses(h, e.has))
    \cup Failing(InfoClauses(h, e.infos, r.size)))
\* C20; runs[1]: in memory, the others: in databases.
TreeVerdict(r) ==
  RunsVerdictOf(r, LAMBDA h, e : Failing(TreeClauses(h, e)))
  \cup (IF r.error # "" THEN {}
        ELSE UNION { UNION { Failing(SameAnswers(r.runs[1][k], r.runs[i][k]))
                             : k \in DOMAIN r.runs[1] } : i \in DOMAIN r.runs })
=============================================================================
