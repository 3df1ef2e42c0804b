------------------------------ MODULE Backend ------------------------------
(* The numeric backend: a process-wide switch.  All histories of switches    *)
(* and computations up to length N, for replay in the implementation.        *)
EXTENDS TLC, Integers, Sequences
CONSTANTS N, HasNumpy
VARIABLES mode, path
vars == <<mode, path>>
Initial == IF HasNumpy THEN "numpy" ELSE "math"
Init == mode = Initial /\ path = <<>>
UseMath  == mode' = "math" /\ path' = Append(path, "M")
UseNumpy == /\ mode' = (IF HasNumpy THEN "numpy" ELSE mode)      \* refused without numpy
            /\ path' = Append(path, "N")
Scalar   == UNCHANGED mode /\ path' = Append(path, "S")
Vector   == HasNumpy /\ UNCHANGED mode /\ path' = Append(path, "V")
Next == /\ Len(path) < N
        /\ UseMath \/ UseNumpy \/ Scalar \/ Vector
        /\ Len(path') = N => PrintT("SCN|" \o path'[1] \o path'[2] \o path'[3] \o path'[4] \o
                                   (IF N >= 5 THEN path'[5] ELSE "") \o (IF N >= 6 THEN path'[6] ELSE ""))
Spec == Init /\ [][Next]_vars
\* the backend in force is the last one chosen
Switches == SelectSeq(path, LAMBDA s : s = "M" \/ (s = "N" /\ HasNumpy))
LastChosen == mode = IF Switches = <<>> THEN Initial
                     ELSE IF Switches[Len(Switches)] = "M" THEN "math" ELSE "numpy"
OnlySwitchesChange == [][mode' # mode => path'[Len(path')] \in {"M", "N"}]_vars
=============================================================================
