------------------------------ MODULE LazyInit ------------------------------
(* First use from several threads of a table that is built when needed.      *)
(* Each thread: reads the shared variable; if empty builds a table of its    *)
(* own, entry by entry, and publishes it in one step; then reads the shared  *)
(* variable again and uses what it finds.  With Publish = "early" (publish   *)
(* first, fill afterwards: a plausible but wrong variant) TLC finds the      *)
(* violation; with "late" (as implemented) every thread gets a full table.   *)
EXTENDS TLC, Integers, Sequences, FiniteSets
CONSTANTS Threads, Entries, Publish
VARIABLES shared, tables, pc, got
\* tables: table id -> number of entries filled; shared: 0 or a table id
vars == <<shared, tables, pc, got>>
Init == /\ shared = 0
        /\ tables = [t \in Threads |-> 0]           \* the table thread t would build
        /\ pc = [t \in Threads |-> "check"]
        /\ got = [t \in Threads |-> -1]
Check(t) == /\ pc[t] = "check"
            /\ pc' = [pc EXCEPT ![t] = IF shared # 0 THEN "use" ELSE IF Publish = "early" THEN "publish" ELSE "build"]
            /\ UNCHANGED <<shared, tables, got>>
Build(t) == /\ pc[t] = "build"
            /\ tables' = [tables EXCEPT ![t] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = IF tables[t] + 1 = Entries THEN (IF Publish = "early" THEN "use" ELSE "publish") ELSE "build"]
            /\ UNCHANGED <<shared, got>>
Pub(t) == /\ pc[t] = "publish"
          /\ shared' = t
          /\ pc' = [pc EXCEPT ![t] = IF Publish = "early" THEN "build" ELSE "use"]
          /\ UNCHANGED <<tables, got>>
Use(t) == /\ pc[t] = "use"
          /\ got' = [got EXCEPT ![t] = tables[shared]]
          /\ pc' = [pc EXCEPT ![t] = "done"]
          /\ UNCHANGED <<shared, tables>>
Next == \E t \in Threads : Check(t) \/ Build(t) \/ Pub(t) \/ Use(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
FullTable == \A t \in Threads : pc[t] = "done" => got[t] = Entries
Finishes == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
