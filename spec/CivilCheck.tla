----------------------------- MODULE CivilCheck -----------------------------
(* A clock that ticks by one day through a full 400-year cycle of the       *)
(* calendar; the closed formulas of Civil must agree with it every day.     *)
EXTENDS Civil, Integers, Sequences
CONSTANTS FirstYear, Chains, ChainYears
VARIABLES y, m, d, n, yd, y0
vars == <<y, m, d, n, yd, y0>>
Init == /\ y \in { FirstYear + ChainYears * k : k \in 0..(Chains - 1) }
        /\ m = 1 /\ d = 1 /\ n = DaysBeforeYear(y) + 1 /\ yd = 1 /\ y0 = y
NextDay ==
  /\ n < DaysBeforeYear(y0 + ChainYears) + 1   \* one day into the next chain
  /\ n' = n + 1 /\ y0' = y0
  /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y /\ yd' = yd + 1
     ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y /\ yd' = yd + 1
                    ELSE m' = 1 /\ y' = y + 1 /\ yd' = 1
Spec == Init /\ [][NextDay]_vars
Agree == /\ DayNumber(y, m, d) = n /\ DateOf(n) = <<y, m, d>> /\ YearDay(y, m, d) = yd
         /\ yd \in 1..YearLength(y)
\* an offset moves the fields but not the instant
Offsets == {-86399, -43200, -3600, -1, 0, 1, 20700, 50400, 86399}
OffsetFree ==
  \A o \in Offsets :
    LET s == 43200 + o   c == DateOf(n + s \div 86400)  t == s % 86400
    IN  Instant(<<c[1], c[2], c[3], t \div 3600, (t \div 60) % 60, t % 60, 5, o, 0>>) = <<n, 43200, 5>>
MicroOffset == Instant(<<y, m, d, 0, 0, 0, 5, 0, 6>>) = <<n - 1, 86399, 999999>>
=============================================================================
