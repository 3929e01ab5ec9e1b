--------------------------------- MODULE Files -------------------------------
(* Runs of the tools on a file system (C30).  A file system gives every path  *)
(* its contents: a number, or one of these.  A run                       *)
(* [tool, ins, out, failed, shown, ref] reads the paths ins; out is the path   *)
(* it was told to write (0: none, then it shows its result); shown is what it *)
(* showed (0: nothing); ref is its result when its inputs' contents are in     *)
(* files of their own.                                                        *)
EXTENDS Seqs

Missing == -1
Directory == -2
Nowhere == -3      \* missing, and so is the directory that it would be in

Readable(fs, p) == fs[p] >= 0
\* Whether all inputs can be read and the output can be written.
Possible(fs, ins, out) == (\A i \in DOMAIN ins : Readable(fs, ins[i]))
                          /\ (out # 0 => fs[out] \notin {Directory, Nowhere})

After(fs, ins, out, result) ==
  IF Possible(fs, ins, out) /\ out # 0 THEN [fs EXCEPT ![out] = result] ELSE fs
Shown(fs, ins, out, result) == IF Possible(fs, ins, out) /\ out = 0 THEN result ELSE 0

RunClauses(before, run, after) ==
  [succeeds |-> ~run.failed <=> Possible(before, run.ins, run.out),
   output   |-> run.out # 0 =>
                  after[run.out] = After(before, run.ins, run.out, run.ref)[run.out],
   others   |-> \A p \in DOMAIN before : p # run.out => after[p] = before[p],
   shown    |-> run.shown = Shown(before, run.ins, run.out, run.ref)]
=============================================================================
