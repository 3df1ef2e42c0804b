------------------------------- MODULE Domain -------------------------------
(* Categories of inputs, combined.  Dims is the sequence of the numbers of   *)
(* categories in each dimension; of the full product every combination whose *)
(* weighted index sum is 0 modulo Mod is selected (Mod = 1: all of them), so *)
(* that each pair of categories of coprime dimensions is met.                *)
EXTENDS TLC, Integers, Sequences
CONSTANTS Dims, Mod, Shift
VARIABLE c
\* latitude, longitude, elevation, atmosphere / era, day, time of day
DimsPlaces == <<16, 8, 6, 5>>
DimsInstants == <<8, 11, 6>>
Weights == <<1, 3, 7, 11, 13, 17, 19, 23>>
Init == c = <<>>
Sum == LET S[k \in 0..Len(c)] == IF k = 0 THEN Shift ELSE S[k - 1] + Weights[k] * c[k] IN S[Len(c)]
Word(h) == LET F[k \in 0..Len(h)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN "," ELSE "") \o ToString(h[k]) IN F[Len(h)]
Next == /\ Len(c) < Len(Dims)
        /\ \E v \in 1..Dims[Len(c) + 1] : c' = Append(c, v)
Emit == Len(c) = Len(Dims) /\ Sum % Mod = 0 => PrintT("SCN|" \o Word(c))
Spec == Init /\ [][Next]_c
InRange == \A k \in 1..Len(c) : c[k] \in 1..Dims[k]
=============================================================================
