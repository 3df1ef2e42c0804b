--------------------------------- MODULE Spa ---------------------------------
(***************************************************************************)
(* The solar position algorithm of Reda and Andreas (NREL/TP-560-34302).   *)
(* All angles in degrees unless a name says otherwise.                     *)
(***************************************************************************)
EXTENDS TimeScales
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

---------------------------------------------------------------------------
(* 3.2 heliocentric coordinates: SUM_k JME^k SUM_i A cos(B + C JME)         *)
PeriodicSum(terms, x) ==
  FoldLeft(LAMBDA acc, t : Add(acc, Mul(t[1], Cos(Add(t[2], Mul(t[3], x))))), FxZero, terms)
Series(table, x) ==                          \* Horner over the powers, highest first
  FoldLeft(LAMBDA acc, grp : Add(PeriodicSum(grp, x), Mul(acc, x)), FxZero, Reverse(table))
TenToMinus8 == Dec(1, 0, 1, 8)

HeliocentricLongitude(jme) == Mod360(Deg(Mul(Series(TermsL, jme), TenToMinus8)))
HeliocentricLatitude(jme)  == Deg(Mul(Series(TermsB, jme), TenToMinus8))
SunEarthDistance(jme)      == Mul(Series(TermsR, jme), TenToMinus8)
GeocentricLongitude(jme)   == Mod360(Add(HeliocentricLongitude(jme), D180))
GeocentricLatitude(jme)    == FNeg(HeliocentricLatitude(jme))

---------------------------------------------------------------------------
(* 3.4 nutation, 3.5 obliquity, 3.6 aberration, 3.8 sidereal time           *)
Poly(a, b, c, d, x) == Add(a, Add(Mul(b, x), Add(Mul(c, Sq(x)), Div(IPow(x, 3), d))))
MeanElongationOfMoon(t) == Poly(Dec(1, 0, 29785036, 5), Dec(1, 44, 526711148, 5),
                                Dec(-1, 0, 19142, 7), I(189474), t)
MeanAnomalyOfSun(t)     == Poly(Dec(1, 0, 35752772, 5), Dec(1, 3, 599905034, 5),
                                Dec(-1, 0, 1603, 7), I(-300000), t)
MeanAnomalyOfMoon(t)    == Poly(Dec(1, 0, 13496298, 5), Dec(1, 477, 198867398, 6),
                                Dec(1, 0, 86972, 7), I(56250), t)
ArgumentOfLatitude(t)   == Poly(Dec(1, 0, 9327191, 5), Dec(1, 483, 202017538, 6),
                                Dec(-1, 0, 36825, 7), I(327270), t)
AscendingNode(t)        == Poly(Dec(1, 0, 12504452, 5), Dec(-1, 1, 934136261, 6),
                                Dec(1, 0, 20708, 7), I(450000), t)
NutationArguments(t) == <<MeanElongationOfMoon(t), MeanAnomalyOfSun(t), MeanAnomalyOfMoon(t),
                          ArgumentOfLatitude(t), AscendingNode(t)>>

D36e6 == I(36000000)
Nutation(t) ==                               \* <<longitude, obliquity>>
  LET X == NutationArguments(t)
      arg(i) == Mod360(FoldLeft(LAMBDA acc, j : Add(acc, MulI(NutArgs[i][j], X[j])), FxZero, <<1, 2, 3, 4, 5>>))
      acc2 == FoldLeft(LAMBDA acc, i :
                 LET g == arg(i)  k == NutCoef[i]
                 IN  << Add(acc[1], Mul(Add(k[1], Mul(k[2], t)), SinD(g))),
                        Add(acc[2], Mul(Add(k[3], Mul(k[4], t)), CosD(g))) >>,
                 <<FxZero, FxZero>>, [i \in 1..63 |-> i])
  IN  << Div(acc2[1], D36e6), Div(acc2[2], D36e6) >>

\* mean obliquity in arc seconds, U = JME / 10, highest power first
ObliquityCs == << Dec(1, 0, 245, 2), Dec(1, 0, 579, 2), Dec(1, 0, 2787, 2), Dec(1, 0, 712, 2),
                  Dec(-1, 0, 3905, 2), Dec(-1, 0, 24967, 2), Dec(-1, 0, 5138, 2), Dec(1, 0, 199925, 2),
                  Dec(-1, 0, 155, 2), Dec(-1, 0, 468093, 2), Dec(1, 0, 84381448, 3) >>
D3600 == I(3600)
TrueObliquity(jme, deps) == Add(Div(Horner(ObliquityCs, DivI(jme, 10)), D3600), deps)

Aberration(r) == Div(Dec(-1, 0, 204898, 4), Mul(D3600, r))
ApparentSunLongitude(theta, dpsi, dtau) == Sum3(theta, dpsi, dtau)

MeanSiderealTime(jd) ==
  LET d == Sub(jd, J2000)  t == Div(d, DaysPerCentury)
  IN  Mod360(Add(Dec(1, 0, 28046061, 5) , Add(Dec(1, 0, 837, 8),
        Add(Mul(Dec(1, 360985, 647366290, 12), d),
            Sub(Mul(Dec(1, 0, 387933, 9), Sq(t)), Div(IPow(t, 3), I(38710000)))))))
\* published: nu0 + dpsi cos(eps); deviation "sidereal-cos-degrees": eps taken as radians
ApparentSiderealTime(nu0, dpsi, eps) == Add(nu0, Mul(dpsi, CosD(eps)))
ApparentSiderealTimeDev(nu0, dpsi, eps) == Add(nu0, Mul(dpsi, Cos(eps)))

---------------------------------------------------------------------------
(* 3.9, 3.10 geocentric equatorial coordinates, 3.11 hour angle             *)
RightAscension(lambda, eps, beta) ==
  Mod360(Deg(Atan2(Sub(Mul(SinD(lambda), CosD(eps)), Mul(TanD(beta), SinD(eps))), CosD(lambda))))
Declination(lambda, eps, beta) ==
  Deg(Asin(Add(Mul(SinD(beta), CosD(eps)), Mul(CosD(beta), Mul(SinD(eps), SinD(lambda))))))
LocalHourAngle(nu, lon, alpha) == Mod360(Sub(Add(nu, lon), alpha))

(* 3.12 topocentric corrections                                             *)
D8794 == Dec(1, 0, 8794, 3)
\* published: 8.794 / (3600 R); deviation "parallax-inverted": 8.794 R / 3600
HorizontalParallax(r) == Div(D8794, Mul(D3600, r))
HorizontalParallaxDev(r) == Div(Mul(D8794, r), D3600)
Flattening == Dec(1, 0, 99664719, 8)
EarthRadius == I(6378140)
AtPole(lat) == FAbs(lat) = I(90)
FlattenedLatitudeRad(lat) == IF AtPole(lat) THEN Rad(lat) ELSE Atan2(Mul(Flattening, SinD(lat)), CosD(lat))
FlattenedLatitude(lat) == Deg(FlattenedLatitudeRad(lat))
ProjectedRadialDistance(elev, lat) ==
  Add(Cos(FlattenedLatitudeRad(lat)), Div(Mul(elev, CosD(lat)), EarthRadius))
ProjectedAxialDistance(elev, lat) ==
  Add(Mul(Flattening, Sin(FlattenedLatitudeRad(lat))), Div(Mul(elev, SinD(lat)), EarthRadius))
ParallaxRightAscension(x, xi, H, delta) ==
  Deg(Atan2(FNeg(Mul(x, Mul(SinD(xi), SinD(H)))),
            Sub(CosD(delta), Mul(x, Mul(SinD(xi), CosD(H))))))
TopocentricHourAngle(H, dalpha) == Sub(H, dalpha)
\* published: the last factor is the radial distance; deviation
\* "topocentric-declination-axial": it is the axial distance once more
TopocentricDeclinationG(delta, y, last, xi, dalpha, H) ==
  Deg(Atan2(Mul(Sub(SinD(delta), Mul(y, SinD(xi))), CosD(dalpha)),
            Sub(CosD(delta), Mul(last, Mul(SinD(xi), CosD(H))))))
TopocentricRightAscension(x, xi, H, lambda, eps, beta) ==
  Add(RightAscension(lambda, eps, beta),
      ParallaxRightAscension(x, xi, H, Declination(lambda, eps, beta)))

---------------------------------------------------------------------------
(* 3.13 to 3.15 horizon coordinates                                         *)
SinElevation(lat, dec, H) == Add(Mul(SinD(lat), SinD(dec)), Mul(CosD(lat), Mul(CosD(dec), CosD(H))))
\* south and west components of the unit vector towards the Sun
SouthComponent(lat, dec, H) == Sub(Mul(CosD(H), Mul(SinD(lat), CosD(dec))), Mul(SinD(dec), CosD(lat)))
WestComponent(dec, H) == Mul(SinD(H), CosD(dec))
CosElevation(lat, dec, H) == Sqrt(Add(Sq(SouthComponent(lat, dec, H)), Sq(WestComponent(dec, H))))
\* well-conditioned near the zenith too
Elevation(lat, dec, H) == Deg(Atan2(SinElevation(lat, dec, H), CosElevation(lat, dec, H)))
Azimuth(lat, dec, H) ==
  Mod360(Add(D180, Deg(Atan2(WestComponent(dec, H), SouthComponent(lat, dec, H)))))

RefractionThreshold == Dec(-1, 0, 83337, 5)        \* -(0.26667 + 0.5667)
Refraction(p, t, e) ==
  IF Lt(e, RefractionThreshold) THEN FxZero
  ELSE Div(Mul(p, Dec(1, 0, 28866, 4)),                      \* 2.830 * 1.02
           Mul(MulI(60600, t),                               \* 1010 * 60
               TanD(Add(e, Div(Dec(1, 0, 103, 1), Add(e, Dec(1, 0, 511, 2)))))))
IncidenceCos(z, slope, orient, az) ==
  Add(Mul(CosD(z), CosD(slope)),
      Mul(SinD(slope), Mul(SinD(z), CosD(Sub(Sub(az, D180), orient)))))
IncidenceAngle(z, slope, orient, az) == Deg(Acos(IncidenceCos(z, slope, orient, az)))

---------------------------------------------------------------------------
(* The whole algorithm.  The part that depends on the instant only:         *)
Ephemeris(i) ==
  LET jd == JulianSolarDay(i)     jde == JulianEphemerisDay(i)
      jce == Century(jde)         jme == Millennium(jce)
      r == SunEarthDistance(jme)
      beta == GeocentricLatitude(jme)
      nut == Nutation(jce)
      eps == TrueObliquity(jme, nut[2])
      lambda == Mod360(ApparentSunLongitude(GeocentricLongitude(jme), nut[1], Aberration(r)))
      nu0 == MeanSiderealTime(jd)
  IN  [ key |-> i, r |-> r, eps |-> eps,
        nu |-> << ApparentSiderealTime(nu0, nut[1], eps), ApparentSiderealTimeDev(nu0, nut[1], eps) >>,
        xi |-> << HorizontalParallax(r), HorizontalParallaxDev(r) >>,
        alpha |-> RightAscension(lambda, eps, beta), delta |-> Declination(lambda, eps, beta) ]

\* ... and the part that depends on the place.  v[1], v[2], v[3] \in {1, 2}
\* select the published expression (1) or the deviation (2) for the sidereal
\* time, the parallax and the topocentric declination.
Topocentric(eph, lat, lon, elev, v) ==       \* <<declination, hour angle>>
  LET H == LocalHourAngle(eph.nu[v[1]], lon, eph.alpha)
      xi == eph.xi[v[2]]
      x == ProjectedRadialDistance(elev, lat)
      y == ProjectedAxialDistance(elev, lat)
      da == ParallaxRightAscension(x, xi, H, eph.delta)
  IN  << TopocentricDeclinationG(eph.delta, y, IF v[3] = 1 THEN x ELSE y, xi, da, H),
         TopocentricHourAngle(H, da) >>
=============================================================================
