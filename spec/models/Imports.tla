------------------------------- MODULE Imports -------------------------------
(* A program that imports the package piece by piece: any module first, the  *)
(* others when it likes, some again (reload), choosing backends in between.  *)
(* "import pysolar" brings the Eager ones along, the Late ones come when     *)
(* they are asked for.  All histories of N such steps, for replay (i:rest    *)
(* imports it, r:rest again, M and N choose a backend; i:eager, r:eager any  *)
(* of those).                                                                *)
EXTENDS TLC, Integers, Sequences, FiniteSets
CONSTANTS N, Default
Eager == {"constants", "solartime", "radiation", "util", "solar"}
Late == {"rest", "simulate", "elevation"}
VARIABLES have, mode, word
vars == <<have, mode, word>>
Init == have = {} /\ mode = "none" /\ word = <<>>
First(m) == /\ have = {}
            /\ have' = Eager \cup {m} /\ mode' = Default /\ word' = <<"i:" \o m>>
Import(m) == have # {} /\ have' = have \cup {m} /\ UNCHANGED mode /\ word' = Append(word, "i:" \o m)
Again(m) == m \in have /\ UNCHANGED <<have, mode>> /\ word' = Append(word, "r:" \o m)
AnyEager(a) == have # {} /\ UNCHANGED <<have, mode>> /\ word' = Append(word, a \o "eager")
Use(m) == have # {} /\ mode' = m /\ UNCHANGED have /\ word' = Append(word, IF m = "math" THEN "M" ELSE "N")
Join(w) == LET J[k \in 0..Len(w)] == IF k = 0 THEN "" ELSE J[k - 1] \o (IF k = 1 THEN "" ELSE ",") \o w[k] IN J[Len(w)]
Next == /\ Len(word) < N
        /\ \/ \E m \in Eager \cup Late \cup {"numeric", "tzinfo_check", "pysolar"} : First(m)
           \/ \E m \in Late : Import(m) \/ Again(m)
           \/ AnyEager("i:") \/ AnyEager("r:")
           \/ \E m \in {"math", "numpy"} : Use(m)
        /\ Len(word') = N => PrintT("SCN|" \o Join(word'))
Spec == Init /\ [][Next]_vars
Complete == have # {} => Eager \subseteq have
OnlyChoices == [][mode' # mode => \/ mode = "none" /\ mode' = Default
                                  \/ word'[Len(word')] = (IF mode' = "math" THEN "M" ELSE "N")]_vars
KeepsWhatItHas == [][have \subseteq have']_vars
=============================================================================
