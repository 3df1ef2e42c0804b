-------------------------------- MODULE Launch --------------------------------
(* How an interpreter that uses the package may be started, decided one thing *)
(* after the other: optimisation, treatment of warnings, isolation, what the  *)
(* package is imported from, the standard streams, the environment and the    *)
(* working directory; then it runs, with the default backend or another one   *)
(* it chooses.  Nothing of this has a part in the answers.                    *)
EXTENDS TLC, Integers, Sequences
CONSTANT Default
Optimise == {"-", "O", "OO"}
Warn     == {"-", "error", "always"}
Isolate  == {"-", "I", "E", "P"}
Place    == {"dir", "zip", "compiled", "link", "accents"}
Streams  == {"open", "closed"}
Environ  == {"full", "empty", "C", "dev"}
Cwd      == {"here", "root", "gone"}
Options == << Optimise, Warn, Isolate, Place, Streams, Environ, Cwd >>
VARIABLES how, mode, asked
vars == <<how, mode, asked>>
Init == how = <<>> /\ mode = "none" /\ asked = {}
Decide == /\ Len(how) < Len(Options)
          /\ \E x \in Options[Len(how) + 1] : how' = Append(how, x)
          /\ UNCHANGED <<mode, asked>>
Join(w) == LET J[k \in 0..Len(w)] == IF k = 0 THEN "" ELSE J[k - 1] \o (IF k = 1 THEN "" ELSE ",") \o w[k] IN J[Len(w)]
Run == /\ Len(how) = Len(Options) /\ mode = "none"
       /\ mode' = Default /\ UNCHANGED <<how, asked>>
       /\ PrintT("SCN|" \o Join(how))
Use == /\ mode = Default /\ mode' = "math" /\ UNCHANGED <<how, asked>>
Ask == mode # "none" /\ asked' = asked \cup {mode} /\ UNCHANGED <<how, mode>>
Next == Decide \/ Run \/ Use \/ Ask
Spec == Init /\ [][Next]_vars
\* a running interpreter has the default backend or one it chose, whatever how is
ModeIsOwn == /\ mode \in {"none", Default, "math"}
             /\ mode # "none" => Len(how) = Len(Options)
NothingAskedBefore == mode = "none" => asked = {}
=============================================================================
