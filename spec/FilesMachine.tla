----------------------------- MODULE FilesMachine ----------------------------
(* Runs of the tools one after the other, on each other's outputs.  Results   *)
(* are terms: the tool and the contents it read.                              *)
EXTENDS Files, TLC, Json
CONSTANTS Paths, MaxRuns, Printing
VARIABLES fs,       \* contents
          first, log
vars == <<fs, first, log>>

States == {"file", "missing", "directory"}
\* Contents are << kind, the contents they were made of >>.
Contents(p, s) == << IF s = "file" THEN ToString(p) ELSE s, <<>> >>
IsFile(c) == c[1] # "missing" /\ c[1] # "directory"
\* The operators of Files are about numbers.
Number(c) == IF c[1] = "missing" THEN Missing ELSE IF c[1] = "directory" THEN Directory ELSE 1
Numbers == [p \in Paths |-> Number(fs[p])]

Init == /\ first \in { s \in [Paths -> States] :
                       Cardinality({ p \in Paths : s[p] # "file" }) <= 1 }
        /\ fs = [p \in Paths |-> Contents(p, first[p])]
        /\ log = <<>>

Result(tool, ins) == << tool, [i \in DOMAIN ins |-> fs[ins[i]]] >>
RunTool(tool, ins, out) ==
  /\ Len(log) < MaxRuns
  /\ fs' = IF Possible(Numbers, ins, out) /\ out # 0
           THEN [fs EXCEPT ![out] = Result(tool, ins)] ELSE fs
  /\ log' = Append(log, [tool |-> tool, ins |-> ins, out |-> out])
  /\ UNCHANGED first
  /\ IF Printing /\ Len(log') = MaxRuns
     THEN PrintT("HISTORY " \o ToJson([first |-> [p \in Paths |-> first[p]], runs |-> log']))
     ELSE TRUE

Next == \E out \in {0} \cup Paths :
          \/ \E a, b \in Paths : RunTool("diff", << a, b >>, out)
          \/ \E a, b, c \in Paths : RunTool("merge", << a, b, c >>, out)
Spec == Init /\ [][Next]_vars

\* A file is what it was at first, unless it was the output of a run that could
\* read its inputs; no run makes a directory of anything or removes it.
OnlyOutputs == \A p \in Paths :
  (~\E i \in DOMAIN log : log[i].out = p) => fs[p] = Contents(p, first[p])
KeepsDirectories == \A p \in Paths : (first[p] = "directory") <=> (fs[p][1] = "directory")
NoneRemoved == \A p \in Paths : first[p] = "file" => IsFile(fs[p])
=============================================================================
