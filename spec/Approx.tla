------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* The fast approximations: everything that depends on the UTC day of the  *)
(* year and the UTC minute only.                                           *)
(***************************************************************************)
EXTENDS Spa
LOCAL INSTANCE Integers

\* minutes to add to mean solar time; n is the day of the year
EquationOfTime(n) ==
  LET b == Div(Mul(TwoPi, I(n - 81)), I(364))
  IN  Sub(Mul(Dec(1, 0, 987, 2), Sin(MulI(2, b))),
          Add(Mul(Dec(1, 0, 753, 2), Cos(b)), Mul(Dec(1, 0, 15, 1), Sin(b))))
EarthTilt == Dec(1, 0, 2345, 2)
DeclinationOfDay(n, ty) == Mul(EarthTilt, Sin(Mul(Div(TwoPi, ty), I(n - 81))))
D365 == I(365)
FastDeclination(n) == DeclinationOfDay(n, D365)

SolarTime(i, lon) ==                            \* hours
  DivI(Sum3(I(UtcHour(i) * 60 + UtcMinute(i)), MulI(4, lon), EquationOfTime(UtcYearDay(i))), 60)
HourAngle(i, lon) == MulI(15, Sub(SolarTime(i, lon), I(12)))
FastAltitude(i, lat, lon) == Elevation(lat, FastDeclination(UtcYearDay(i)), HourAngle(i, lon))
\* north through east
FastAzimuth(i, lat, lon) == Azimuth(lat, FastDeclination(UtcYearDay(i)), HourAngle(i, lon))
FastCosAltitude(i, lat, lon) == CosElevation(lat, FastDeclination(UtcYearDay(i)), HourAngle(i, lon))
FastSinAltitude(i, lat, lon) == SinElevation(lat, FastDeclination(UtcYearDay(i)), HourAngle(i, lon))
=============================================================================
