-------------------------------- MODULE Pool --------------------------------
(* A program that uses the library in several processes: each has a backend  *)
(* of its own.  One made by fork starts with its parent's, a fresh one with  *)
(* the default; a switch concerns the process that makes it.  All histories  *)
(* of N such steps, for replay with real processes (f12: process 1 forks 2,  *)
(* s12: process 1 starts 2 afresh, M1, N1: 1 chooses math, numpy).           *)
EXTENDS TLC, Integers, Sequences
CONSTANTS N, MaxProcs, Default
VARIABLES mode, word, last
vars == <<mode, word, last>>
Live == 1..Len(mode)
Init == mode = <<Default>> /\ word = <<>> /\ last = <<"start", 0>>
Fork(p)  == /\ Len(mode) < MaxProcs
            /\ mode' = Append(mode, mode[p]) /\ last' = <<"fork", p>>
            /\ word' = Append(word, "f" \o ToString(p) \o ToString(Len(mode) + 1))
Fresh(p) == /\ Len(mode) < MaxProcs
            /\ mode' = Append(mode, Default) /\ last' = <<"fresh", p>>
            /\ word' = Append(word, "s" \o ToString(p) \o ToString(Len(mode) + 1))
Use(p, m) == /\ mode' = [mode EXCEPT ![p] = m] /\ last' = <<"use", p>>
             /\ word' = Append(word, (IF m = "math" THEN "M" ELSE "N") \o ToString(p))
Join(w) == LET J[k \in 0..Len(w)] == IF k = 0 THEN "" ELSE J[k - 1] \o (IF k = 1 THEN "" ELSE ",") \o w[k] IN J[Len(w)]
Next == /\ Len(word) < N
        /\ \E p \in Live : Fork(p) \/ Fresh(p) \/ \E m \in {"math", "numpy"} : Use(p, m)
        /\ (Len(word') = N /\ Len(mode') > 1) => PrintT("SCN|" \o Join(word') \o "|" \o Join(mode'))
Spec == Init /\ [][Next]_vars
Modes == \A p \in Live : mode[p] \in {"math", "numpy"}
\* nobody's backend changes but by his own choice
Own == [][ /\ Len(mode') >= Len(mode)
           /\ \A p \in Live : mode'[p] # mode[p] => last' = <<"use", p>>
           /\ Len(mode') > Len(mode) => mode'[Len(mode')] = IF last'[1] = "fork" THEN mode[last'[2]] ELSE Default ]_vars
=============================================================================
