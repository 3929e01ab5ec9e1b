------------------------------ MODULE TraceBase ------------------------------
(* Validates recorded executions: every record of the trace file is judged   *)
(* by Verdict, an operator of the specification that gives the set of names  *)
(* of the clauses the record breaks.  Each behaviour visits every Lanes-th    *)
(* record, so that workers share them.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Verdict(_), Lanes

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES at, broken

TInit == at \in (1 - Lanes)..0 /\ broken = {}
TNext ==
  /\ at + Lanes <= Len(Recs)
  /\ at' = at + Lanes
  /\ broken' = Verdict(Recs[at'])
  /\ broken' # {} => PrintT("BROKEN " \o ToJson([at |-> at', broken |-> broken']))
TSpec == TInit /\ [][TNext]_<<at, broken>>



=============================================================================
