-------------------------------- MODULE Leap --------------------------------
(* The steps of TAI-UTC and of the Delta-T table, month by month: stepwise   *)
(* behaviour against the closed forms of TimeScales, and the months worth    *)
(* probing (all of them) for the implementation.                             *)
EXTENDS TimeScales, TLC, Integers, Sequences
CONSTANTS First, Last                    \* month indexes
VARIABLES m, tai, dt
vars == <<m, tai, dt>>
YearOf(k) == IF k % 12 = 0 THEN k \div 12 - 1 ELSE k \div 12
MonthOf(k) == IF k % 12 = 0 THEN 12 ELSE k % 12
Init == m = First /\ tai = 10 /\ dt = DeltaTValues[1]
Base0 == MonthIndex(DeltaTBaseYear, DeltaTBaseMonth)
Tick ==
  /\ m < Last
  /\ m' = m + 1
  /\ tai' = tai + (IF m \in LeapIndexes THEN 1 ELSE 0)
  /\ dt' = IF m' > Base0 /\ m' - Base0 < Len(DeltaTValues) THEN DeltaTValues[m' - Base0 + 1] ELSE dt
  /\ PrintT("SCN|" \o ToString(YearOf(m)) \o "|" \o ToString(MonthOf(m)))
Next == Tick
Spec == Init /\ [][Next]_vars
Closed == tai = TaiMinusUtcOf(YearOf(m), MonthOf(m)) /\ dt = DeltaTOf(YearOf(m), MonthOf(m))
Bounds == tai \in 10..37 /\ dt \in 434724..673890
HalfYears == \A k \in LeapIndexes : MonthOf(k) \in {6, 12}
Monotone == [][tai' \in {tai, tai + 1} /\ dt' - dt \in -300..1400]_vars
=============================================================================
