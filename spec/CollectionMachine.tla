--------------------------- MODULE CollectionMachine -------------------------
(* Collections as tables of one database: rows << table, tag, data >>.        *)
(* A program has objects that stand for tables, several for one perhaps.      *)
EXTENDS Collection, Json
CONSTANTS Names, Tag, Data, MaxObjects, MaxOps, Printing
VARIABLES rows,    \* the rows of all tables
          objects, \* for every table the number of objects made for it
          s,       \* the mappings they stand for
          log
vars == <<rows, objects, s, log>>

Init == rows = {} /\ objects = [c \in Names |-> 0] /\ s = [c \in Names |-> {}] /\ log = <<>>

Op(op, c, h, tag, data) == [op |-> op, c |-> c, h |-> h, tag |-> tag, data |-> data]
Table(c) == { r \in rows : r[1] = c }
Pairs(c) == { << r[2], r[3] >> : r \in Table(c) }

Done(o, rowsAfter, objectsAfter) ==
  /\ Len(log) < MaxOps
  /\ rows' = rowsAfter
  /\ objects' = objectsAfter
  /\ s' = Effect(s, o)
  /\ log' = Append(log, o)
  /\ IF Printing /\ Len(log') = MaxOps THEN PrintT("HISTORY " \o ToJson(log')) ELSE TRUE

\* An object is made: its table, emptied.  The others go on standing for it.
Create(c) == objects[c] < MaxObjects
  /\ Done(Op("create", c, objects[c], 0, 0), { r \in rows : r[1] # c },
          [objects EXCEPT ![c] = @ + 1])
\* h: the object that is used
Store(c, h, t, d) == h < objects[c]
  /\ Done(Op("set", c, h, t, d), { r \in rows : r[1] # c \/ r[2] # t } \cup { << c, t, d >> },
          objects)
Delete(c, h, t) == h < objects[c]
  /\ Done(Op("del", c, h, t, 0), { r \in rows : r[1] # c \/ r[2] # t }, objects)

Next == \E c \in Names :
  \/ Create(c)
  \/ \E h \in 0..MaxObjects-1, t \in Tag : Delete(c, h, t) \/ \E d \in Data : Store(c, h, t, d)
Spec == Init /\ [][Next]_vars

\* The tables are the mappings, for all objects; a tag has one row.
Refines == \A c \in Names : objects[c] > 0 => Pairs(c) = s[c]
OneRow == \A r, q \in rows : r[1] = q[1] /\ r[2] = q[2] => r = q
=============================================================================
