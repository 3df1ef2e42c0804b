------------------------------ MODULE SpaCheck ------------------------------
(* The worked example of NREL/TP-560-34302, table A5.1 (17 October 2003,    *)
(* 12:30:30 at UTC-7, lon -105.1786, lat 39.742476, elevation 1830.14 m,    *)
(* 820 mbar, 11 C; Delta-T = 67 s there, so JD is taken as given), checked  *)
(* on the specification itself.                                             *)
EXTENDS Spa, TLC, Integers, Sequences
VARIABLE x
Jd  == Add(I(2452930), Dec(1, 0, 312847222, 9))
Jde == Add(Jd, Div(I(67), D86400))
Jce == Century(Jde)
Jme == Millennium(Jce)
N(v, hi, lo, e, t) == Near(v, Dec(1, hi, lo, e), Dec(1, 0, 1, t))
M(v, lo, e, t) == Near(v, Dec(-1, 0, lo, e), Dec(1, 0, 1, t))
R == SunEarthDistance(Jme)
Nut == Nutation(Jce)
Eps == TrueObliquity(Jme, Nut[2])
Lam == ApparentSunLongitude(GeocentricLongitude(Jme), Nut[1], Aberration(R))
Nu == ApparentSiderealTime(MeanSiderealTime(Jd), Nut[1], Eps)
Eph == [ nu |-> <<Nu, Nu>>, xi |-> <<HorizontalParallax(R), HorizontalParallax(R)>>,
         alpha |-> RightAscension(Lam, Eps, GeocentricLatitude(Jme)),
         delta |-> Declination(Lam, Eps, GeocentricLatitude(Jme)) ]
Lat == Dec(1, 0, 39742476, 6)
Lon == Dec(-1, 0, 1051786, 4)
Top == Topocentric(Eph, Lat, Lon, Dec(1, 0, 183014, 2), <<1, 1, 1>>)
Ele == Elevation(Lat, Top[1], Top[2])
Ref == Refraction(I(82000), Dec(1, 0, 28415, 2), Ele)
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Example ==
  /\ N(HeliocentricLongitude(Jme), 24, 18261600, 9, 6)      \* 24.0182616
  /\ M(HeliocentricLatitude(Jme), 1011219, 10, 9)           \* -0.0001011219
  /\ N(R, 0, 996542297, 9, 8)
  /\ M(Nut[1], 399840, 8, 7)                                \* -0.00399840
  /\ N(Nut[2], 0, 166657, 8, 7)
  /\ N(Eps, 0, 23440465, 6, 5)
  /\ N(Lam, 204, 8551900, 9, 5)
  /\ N(Eph.alpha, 202, 227408000, 9, 5)
  /\ M(Eph.delta, 931434, 5, 4)
  /\ N(Mod360(Top[2]), 11, 106290000, 9, 4)
  /\ M(Top[1], 9316179, 6, 4)
  /\ N(Sub(Sub(I(90), Ele), Ref), 50, 111620000, 9, 4)      \* zenith 50.11162
  /\ N(Azimuth(Lat, Top[1], Top[2]), 194, 340240000, 9, 4)
  /\ N(IncidenceAngle(Sub(Sub(I(90), Ele), Ref), I(30), I(-10), Azimuth(Lat, Top[1], Top[2])), 25, 187000000, 9, 3)
=============================================================================
