------------------------------ MODULE Histories ------------------------------
(* A pure interface: the state is empty, so whatever the history, a call     *)
(* returns the value determined by its arguments.  All histories of length   *)
(* L over K kinds of calls, for replay; Ref is the abstract result function. *)
EXTENDS TLC, Integers, Sequences
CONSTANTS K, L
VARIABLES hist, last
vars == <<hist, last>>
Ref(c) == c * c + 1
Init == hist = <<>> /\ last = 0
Call(c) == hist' = Append(hist, c) /\ last' = Ref(c)
Word(h) == LET F[k \in 0..Len(h)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN "," ELSE "") \o ToString(h[k]) IN F[Len(h)]
Next == /\ Len(hist) < L
        /\ \E c \in 1..K : Call(c)
        /\ Len(hist') = L => PrintT("SCN|" \o Word(hist'))
Spec == Init /\ [][Next]_vars
Pure == hist # <<>> => last = Ref(hist[Len(hist)])
=============================================================================
