-------------------------------- MODULE Gate --------------------------------
(* The gate in front of every function that takes a timezone-aware datetime. *)
(* Each call is one behaviour: present the argument in some style, the gate  *)
(* inspects it, then refuses or lets the body run.                           *)
EXTENDS TLC, Integers, Sequences
CONSTANT NFunctions
Kinds == {"naive", "naive-subclass", "naive-fold", "none", "date", "string", "int", "float", "time", "aware-time", "offsetless", "clock", "aware", "aware-subclass", "missing"}
Styles == {"positional", "keyword", "all-keyword"}
VARIABLES f, kind, style, st
vars == <<f, kind, style, st>>
Init == f \in 1..NFunctions /\ kind \in Kinds /\ style \in Styles /\ st = "called"
IsDatetimeAware == kind \in {"aware", "aware-subclass"}
Inspect == /\ st = "called"
           /\ st' = IF kind = "missing" THEN "TypeError" ELSE IF IsDatetimeAware THEN "body" ELSE "ValueError"
           /\ UNCHANGED <<f, kind, style>>
           /\ PrintT("SCN|" \o ToString(f) \o "|" \o kind \o "|" \o style \o "|" \o st')
Return == st = "body" /\ st' = "returned" /\ UNCHANGED <<f, kind, style>>
Next == Inspect \/ Return
Spec == Init /\ [][Next]_vars
OnlyAwareReachTheBody == st \in {"body", "returned"} => IsDatetimeAware
=============================================================================
