----------------------------- MODULE Irradiance -----------------------------
(***************************************************************************)
(* Clear-sky and extraterrestrial radiation, the standard atmosphere.      *)
(***************************************************************************)
EXTENDS RiseSet
LOCAL INSTANCE Integers

---------------------------------------------------------------------------
(* radiation: Masters, "Renewable and Efficient Electric Power Systems"     *)
DayAngle(n, n0) == Div(Mul(TwoPi, I(n - n0)), D365)
ApparentFlux(n) == Add(I(1160), MulI(75, Sin(DayAngle(n, 275))))
OpticalDepth(n) == Add(Dec(1, 0, 174, 3), Mul(Dec(1, 0, 35, 3), Sin(DayAngle(n, 100))))
AirMass(alt) ==                                  \* alt # 0
  IF Lt(alt, FxZero) THEN FNeg(Div(One, SinD(FNeg(alt)))) ELSE Div(One, SinD(alt))
TinyAltitude == Dec(1, 0, 1, 9)
DirectRadiation(n, alt) ==
  IF Le(alt, FxZero) THEN FxZero
  ELSE IF Lt(alt, TinyAltitude) THEN FxZero     \* exp(-0.139 / 1.7e-11) vanishes
  ELSE Mul(ApparentFlux(n), Exp(FNeg(Mul(OpticalDepth(n), AirMass(alt)))))

---------------------------------------------------------------------------
(* util: day-of-year factors                                                *)
EarthSunFactor(n) == Sub(One, Mul(Dec(1, 0, 335, 4), Sin(DayAngle(n, 94))))
SinSunElevation(i, lat, lon) ==
  SinElevation(lat, FastDeclination(UtcYearDay(i)), HourAngle(i, lon))
Eccentricity(n) ==
  LET a == DayAngle(n, 1) IN
  Add(Dec(1, 0, 10001, 4), Add(Mul(Dec(1, 0, 34221, 6), Cos(a)),
  Add(Mul(Dec(1, 0, 128, 5), Sin(a)), Add(Mul(Dec(1, 0, 719, 6), Cos(MulI(2, a))),
      Mul(Dec(1, 0, 77, 6), Sin(MulI(2, a)))))))
Extraterrestrial(i, lat, lon, sc) ==
  LET s == SinSunElevation(i, lat, lon)
  IN  IF Le(s, FxZero) THEN FxZero ELSE Mul(sc, Mul(s, Eccentricity(UtcYearDay(i))))

(* util: clear and overcast skies; alt is the refracted altitude in degrees *)
SolarElevationClear(alt) ==
  Add(Dec(1, 0, 38175, 6), Add(Mul(Dec(1, 0, 15458, 4), SinD(alt)), Mul(Dec(-1, 0, 5998, 4), Sq(SinD(alt)))))
SolarElevationOvercast(alt) ==
  Add(Dec(-1, 0, 67133, 7), Add(Mul(Dec(1, 0, 786, 3), SinD(alt)), Mul(Dec(1, 0, 22401, 5), Sq(SinD(alt)))))
DiffuseTransmittance(tl) ==
  Add(Dec(-1, 0, 21657, 3), Add(Mul(Dec(1, 0, 41752, 3), tl), Mul(Dec(1, 0, 51905, 5), Sq(tl))))
DiffuseSky(n, alt, tl) == Mul(EarthSunFactor(n), Mul(DiffuseTransmittance(tl), alt))
\* Kasten 1996 (ESRA): the Rayleigh optical depth of an air mass
RayleighDepth(m) ==
  IF Lt(I(20), m) THEN Div(One, Add(Dec(1, 0, 104, 1), Mul(Dec(1, 0, 718, 3), m)))
  ELSE Div(One, Add(Dec(1, 0, 66296, 4), Mul(m, Add(Dec(1, 0, 17513, 4),
         Mul(m, Add(Dec(-1, 0, 1202, 4), Mul(m, Add(Dec(1, 0, 65, 4), Mul(m, Dec(-1, 0, 13, 5))))))))))
DirectBeam(n, alt, am, tl, depth) ==
  Mul(I(1367), Mul(EarthSunFactor(n),
      Mul(Exp(Mul(Dec(-1, 0, 8662, 4), Mul(am, Mul(tl, depth)))), SinD(alt))))
DirectUnderClear(n, alt, am, tl) == DirectBeam(n, alt, am, tl, RayleighDepth(am))
\* known finding "direct-underclear-declination": the declination, in degrees,
\* stands where the optical depth should
DirectUnderClearDev(n, alt, ty, am, tl) == DirectBeam(n, alt, am, tl, DeclinationOfDay(n, ty))
GlobalOvercast(alt) == MulI(572, alt)

---------------------------------------------------------------------------
(* elevation: the barometric formula                                        *)
StdPressure == I(101325)
StdTemperature == Dec(1, 0, 28815, 2)
LapseRate == Dec(-1, 0, 65, 4)
GasConstant == Dec(1, 0, 831432, 5)
Gravity == Dec(1, 0, 980665, 5)
MolarMass == Dec(1, 0, 289644, 7)
TemperatureAt(h, ts, tl) == Add(ts, Mul(h, tl))
PressureAt(h, ps, ts, tl, hb, r, g, m) ==
  Mul(ps, Power(Div(ts, Add(ts, Mul(tl, Sub(h, hb)))), Div(Mul(g, m), Mul(r, tl))))
=============================================================================
