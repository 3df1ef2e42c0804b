----------------------------- MODULE TimeScales -----------------------------
(***************************************************************************)
(* UTC, TAI, TT, UT1 and Julian dates.                                     *)
(***************************************************************************)
EXTENDS FxMath, Civil, SpaTables
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

\* <<y, m>>: a leap second ended month m of year y (IERS Bulletin C)
LeapSecondDates ==
  { <<1972, 6>>, <<1972, 12>>, <<1973, 12>>, <<1974, 12>>, <<1975, 12>>, <<1976, 12>>,
    <<1977, 12>>, <<1978, 12>>, <<1979, 12>>, <<1981, 6>>, <<1982, 6>>, <<1983, 6>>,
    <<1985, 6>>, <<1987, 12>>, <<1989, 12>>, <<1990, 12>>, <<1992, 6>>, <<1993, 6>>,
    <<1994, 6>>, <<1995, 12>>, <<1997, 6>>, <<1998, 12>>, <<2005, 12>>, <<2008, 12>>,
    <<2012, 6>>, <<2015, 6>>, <<2016, 12>> }
ASSUME Cardinality(LeapSecondDates) = 27

MonthIndex(y, m) == 12 * y + m
LeapIndexes == { MonthIndex(p[1], p[2]) : p \in LeapSecondDates }
\* TAI - UTC in seconds, in month m of year y
TaiMinusUtcOf(y, m) == 10 + Cardinality({ k \in LeapIndexes : k < MonthIndex(y, m) })
TaiMinusUtc(i) == LET c == UtcDate(i) IN TaiMinusUtcOf(c[1], c[2])

\* the table of leap seconds is valid up to the end of June 2026
LeapTableEnd == MonthIndex(2026, 6)
BeyondLeapTable(i) == LET c == UtcDate(i) IN MonthIndex(c[1], c[2]) > LeapTableEnd

\* TT - UT1 in 1e-4 s, by month
DeltaTOf(y, m) ==
  LET k == MonthIndex(y, m) - MonthIndex(DeltaTBaseYear, DeltaTBaseMonth) + 1
      c == IF k < 1 THEN 1 ELSE IF k > Len(DeltaTValues) THEN Len(DeltaTValues) ELSE k
  IN  DeltaTValues[c]
DeltaT(i) == LET c == UtcDate(i) IN Mul(I(DeltaTOf(c[1], c[2])), Dec(1, 0, 1, 4))

\* seconds of the UTC day
SecondsOfDay(i) == Add(I(i[2]), Mul(I(i[3]), Dec(1, 0, 1, 6)))
D86400 == I(86400)
JulianOffset == Dec(1, 0, 17214245, 1)     \* JD of day number 0 at 0h
TtMinusTai == Dec(1, 0, 32184, 3)

JulianEphemerisDay(i) ==
  Add(Add(I(i[1]), JulianOffset),
      Div(Add(SecondsOfDay(i), Add(I(TaiMinusUtc(i)), TtMinusTai)), D86400))
JulianSolarDay(i) == Sub(JulianEphemerisDay(i), Div(DeltaT(i), D86400))

J2000 == I(2451545)
DaysPerCentury == I(36525)
Century(jd) == Div(Sub(jd, J2000), DaysPerCentury)
Millennium(jc) == DivI(jc, 10)

\* 2000-01-01 12:00 TT is JD 2451545.0: 11:58:55.816 UTC
ASSUME JulianEphemerisDay(<<DayNumber(2000, 1, 1), 43135, 816000>>) = J2000
ASSUME TaiMinusUtcOf(1971, 1) = 10 /\ TaiMinusUtcOf(1972, 7) = 11 /\ TaiMinusUtcOf(2017, 1) = 37
ASSUME Len(DeltaTValues) = MonthIndex(2014, 4) - MonthIndex(1973, 2) + 1
=============================================================================
