------------------------------- MODULE Civil -------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar, civil datetimes with a UTC offset,    *)
(* and the instants they denote.                                           *)
(*                                                                         *)
(* A datetime is <<y, mo, d, h, mi, s, us, offs, offus>>: local civil      *)
(* fields and the UTC offset in seconds and microseconds.  An instant is   *)
(* <<day, sec, us>>: days since 0000-12-31 (so 0001-01-01 is day 1), and   *)
(* second and microsecond of the UTC day.                                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

IsLeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> IF IsLeapYear(y) THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
YearLength(y) == IF IsLeapYear(y) THEN 366 ELSE 365

\* days before 1 January of year y
DaysBeforeYear(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == CumDays[m] + (IF m > 2 /\ IsLeapYear(y) THEN 1 ELSE 0)
DayNumber(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d
YearDay(y, m, d) == DaysBeforeMonth(y, m) + d

\* inverse: the civil date of a day number, as <<y, m, d>>
DateOf(n) ==
  LET z    == n - 1
      q400 == z \div 146097              r400 == z % 146097
      q100 == LET q == r400 \div 36524 IN IF q = 4 THEN 3 ELSE q
      r100 == r400 - 36524 * q100
      q4   == r100 \div 1461             r4 == r100 % 1461
      q1   == LET q == r4 \div 365 IN IF q = 4 THEN 3 ELSE q
      y    == 400 * q400 + 100 * q100 + 4 * q4 + q1 + 1
      yd   == r4 - 365 * q1              \* day of year, from 0
      m    == CHOOSE k \in 1..12 :
                /\ DaysBeforeMonth(y, k) <= yd
                /\ k = 12 \/ yd < DaysBeforeMonth(y, k + 1)
  IN  <<y, m, yd - DaysBeforeMonth(y, m) + 1>>

\* the instant a datetime denotes
Instant(dt) ==
  LET us  == dt[7] - dt[9]
      sec == dt[4] * 3600 + dt[5] * 60 + dt[6] - dt[8] + us \div 1000000
      day == DayNumber(dt[1], dt[2], dt[3]) + sec \div 86400
  IN  <<day, sec % 86400, us % 1000000>>

\* the UTC calendar fields of an instant
UtcDate(i) == DateOf(i[1])
UtcYear(i) == DateOf(i[1])[1]
UtcMonth(i) == DateOf(i[1])[2]
UtcYearDay(i) == LET c == DateOf(i[1]) IN YearDay(c[1], c[2], c[3])
UtcHour(i) == i[2] \div 3600
UtcMinute(i) == (i[2] \div 60) % 60
LocalYearDay(dt) == YearDay(dt[1], dt[2], dt[3])

\* instants are ordered lexicographically
IBefore(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
=============================================================================
