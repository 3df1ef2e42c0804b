------------------------------- MODULE RiseSet -------------------------------
(***************************************************************************)
(* Sunrise, transit and sunset of a local calendar day.                    *)
(***************************************************************************)
EXTENDS Approx
LOCAL INSTANCE Integers

RsDeclination(n) ==
  LET t == Div(Mul(TwoPi, I(n)), I(366)) IN
  Add(Dec(1, 0, 322003, 6),
  Add(Mul(Dec(-1, 0, 22971, 3), Cos(t)),
  Add(Mul(Dec(-1, 0, 357898, 6), Cos(MulI(2, t))),
  Add(Mul(Dec(-1, 0, 14398, 5), Cos(MulI(3, t))),
  Add(Mul(Dec(1, 0, 394638, 5), Sin(t)),
  Add(Mul(Dec(1, 0, 19334, 6), Sin(MulI(2, t))),
      Mul(Dec(1, 0, 5928, 5), Sin(MulI(3, t)))))))))

RsTimeAdjustment(n) ==                          \* hours
  LET t == Rad(Add(Dec(1, 0, 279134, 3), Mul(Dec(1, 0, 985647, 6), I(n)))) IN
  DivI(Add(Dec(1, 0, 50323, 4),
  Add(Mul(Dec(-1, 0, 100976, 3), Sin(t)),
  Add(Mul(Dec(1, 0, 595275, 3), Sin(MulI(2, t))),
  Add(Mul(Dec(1, 0, 36858, 4), Sin(MulI(3, t))),
  Add(Mul(Dec(-1, 0, 1247, 2), Sin(MulI(4, t))),
  Add(Mul(Dec(-1, 0, 430847, 3), Cos(t)),
  Add(Mul(Dec(1, 0, 125024, 4), Cos(MulI(2, t))),
      Mul(Dec(1, 0, 1825, 2), Cos(MulI(3, t)))))))))), 3600)

\* UTC offset of the datetime, in hours
OffsetHours(dt) == Div(Add(I(dt[8]), Mul(I(dt[9]), Dec(1, 0, 1, 6))), D3600)
\* hours from local mean noon to solar noon at a uniform Sun, in [-12, 12)
NoonShift(dt, lon) == DivI(AngDiff(Sub(MulI(15, OffsetHours(dt)), lon), FxZero), 15)
\* hours after local midnight
TransitHours(dt, lon) ==
  Sub(Add(I(12), NoonShift(dt, lon)), RsTimeAdjustment(LocalYearDay(dt)))
CosHalfDay(dt, lat) ==
  LET d == RsDeclination(LocalYearDay(dt))
  IN  Sub(Div(CosD(Dec(1, 0, 90833, 3)), Mul(CosD(lat), CosD(d))), Mul(TanD(lat), TanD(d)))
\* hours from sunrise to transit, when there is a sunrise
HalfDayHours(dt, lat) == DivI(Deg(Acos(CosHalfDay(dt, lat))), 15)

\* an hour count after the local midnight of dt, in seconds after 0h UTC of
\* the day with the same number
UtcSeconds(dt, hours) == MulI(3600, Sub(hours, OffsetHours(dt)))
\* a datetime in seconds after 0h UTC of day number n
SecondsAfter(dt, n) ==
  LET i == Instant(dt) IN Add(MulI(i[1] - n, D86400), SecondsOfDay(i))
=============================================================================
