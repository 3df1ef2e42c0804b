-------------------------------- MODULE Laws --------------------------------
(* The laws of Relations.tla on the specification itself: a walk over        *)
(* instants and places of 1950..2050 (coprime strides), all laws at *)
(* each.  A slip in a formula or a table of the specification that no        *)
(* published example shows breaks one of them.                               *)
EXTENDS Irradiance, Relations, TLC, Integers, Sequences
CONSTANTS First, Last, Walks                   \* so many walks side by side
VARIABLE k
Init == k \in First..(First + Walks - 1)
Next == k + Walks <= Last /\ k' = k + Walks
Spec == Init /\ [][Next]_k

Day0 == DayNumber(1950, 1, 1)
\* every third sample at the end of a year, a month or a leap second
DayOf(j) == CASE j % 6 = 0 -> DayNumber(1950 + ((j * 7) % 100), 12, 31)
              [] j % 6 = 3 -> DayNumber(1950 + ((j * 11) % 100), 1 + ((j \div 6) % 12), 1) - 1
              [] OTHER -> Day0 + ((j * 9973) % 36500)
SecOf(j) == IF j % 3 = 0 THEN 86399 - ((j * 7) % 30) ELSE (j * 7919) % 86400
LatOf(j) == DivI(I(((j * 367) % 1801) - 900), 10)
LonOf(j) == DivI(I(((j * 1531) % 3601) - 1800), 10)
At(n, s) ==                                    \* s seconds, a fixed-point number, after 0h of day n
  LET f == Floor(s)   w == FloorInt(s)
  IN  << n + (w \div 86400), w % 86400, FloorInt(MulI(1000000, Sub(s, f))) >>
Later(i, s) == At(i[1], Add(SecondsOfDay(i), s))

Horizon(eph, lat, lon, h) ==                   \* <<azimuth, altitude>>
  LET t == Topocentric(eph, lat, lon, h, <<1, 1, 1>>)
  IN  << Azimuth(lat, t[1], t[2]), Elevation(lat, t[1], t[2]) >>
HorizonFast(i, lat, lon) == << FastAzimuth(i, lat, lon), FastAltitude(i, lat, lon) >>
Refracted(e, p, t) == Add(e, Refraction(p, t, e))

P90 == I(90)
I0 == At(DayOf(k), I(SecOf(k)))
Lat == LatOf(k)
Lon == LonOf(k)
Sec == I(1 + ((k * 593) % 3600))
P == I((k * 1009) % 110000)
Tk == I(220 + ((k * 17) % 100))
\* a civil day of about local time: offset of whole minutes
Off == 60 * FloorInt(MulI(4, Lon))
Local(i) == LET s == i[2] + Off
                c == DateOf(i[1] + (s \div 86400))
                w == s % 86400
            IN  << c[1], c[2], c[3], w \div 3600, (w \div 60) % 60, w % 60, i[3], Off, 0 >>
Holds(rel, x, q) == RelationHolds(rel, x, q) \/ (PrintT(<<"LAW", rel, k, x, q>>) /\ FALSE)
Mid == DivI(MulI(2, Lat), 3)                   \* latitudes up to 60
HighLaws ==
  LET dt == Local(I0)
      n == DayNumber(dt[1], dt[2], dt[3])
      tr == TransitHours(dt, Lon)
      hd == HalfDayHours(dt, Mid)
      when(h) == At(n, UtcSeconds(dt, h))
      sun(h) == Horizon(Ephemeris(when(h)), Mid, Lon, FxZero)
  IN  /\ Holds("horizon", <<sun(Sub(tr, hd))[2]>>, <<>>)
      /\ Holds("horizon", <<sun(Add(tr, hd))[2]>>, <<>>)
      /\ \E s \in {sun(tr)} :
           Holds("transit", <<s[2], s[1], sun(Add(tr, DivI(Sec, 600)))[2], sun(Sub(tr, DivI(Sec, 3600)))[2]>>, <<>>)
SunLaws ==
  \E eph \in {Ephemeris(I0)} : \E s \in {Horizon(eph, Lat, Lon, FxZero)} :
  /\ Holds("fast", s \o HorizonFast(I0, Lat, Lon), <<>>)
  /\ Holds("turn", s \o Horizon(eph, Lat, Add(Lon, D360), FxZero), <<>>)
  /\ Holds("height", <<s[2], Horizon(eph, Lat, Lon, I(9000))[2]>>, <<>>)
  /\ Holds("depth", <<Horizon(eph, Lat, Lon, I(-400))[2], s[2], Horizon(eph, Lat, Lon, I(400))[2]>>, <<>>)
  /\ Holds("refraction", << Refracted(s[2], P, Tk), s[2], Refracted(s[2], Add(P, I(1000)), Tk), Refracted(s[2], P, Add(Tk, One)) >>, <<P, Tk>>)
  /\ Holds("poles", << Horizon(eph, P90, Lon, FxZero)[2], Horizon(eph, P90, FxZero, FxZero)[2], Horizon(eph, FNeg(P90), Lon, FxZero)[2],
                               DeclinationOfDay(UtcYearDay(I0), D365) >>, <<>>)
  /\ Holds("distance", << eph.r, EarthSunFactor(UtcYearDay(I0)), ApparentFlux(UtcYearDay(I0)) >>, <<>>)
  /\ \E l \in {Later(I0, Sec)} : \E e2 \in {Ephemeris(l)} :
       /\ Holds("turning", <<s[2], Horizon(e2, Lat, Lon, FxZero)[2]>>, <<Sec>>)
       /\ Holds("shifted", s \o Horizon(e2, Lat, Sub(Lon, DivI(Sec, 240)), FxZero), <<Sec>>)
  /\ Holds("turning-fast", << FastAltitude(I0, Lat, Lon), FastAltitude(Later(I0, I(60)), Lat, Lon) >>, <<>>)
  /\ Holds("four-years", << s[2], Horizon(Ephemeris(<<I0[1] + 1461, I0[2], I0[3]>>), Lat, Lon, FxZero)[2] >>, <<>>)
\* one day and the next; places further north
DayLaws ==
  LET dt == Local(I0)
      c2 == DateOf(DayNumber(dt[1], dt[2], dt[3]) + 1)
      d2 == << c2[1], c2[2], c2[3], dt[4], dt[5], dt[6], dt[7], dt[8], dt[9] >>
      n == UtcYearDay(I0)
      m == UtcYearDay(<<I0[1] + 1, I0[2], I0[3]>>)
      h1 == HalfDayHours(dt, Mid)   h2 == HalfDayHours(d2, Mid)
      t1 == TransitHours(dt, Lon)   t2 == TransitHours(d2, Lon)
      far == DivI(Add(Mid, I(60)), 2)
  IN  /\ Holds("daily", << FastDeclination(n), FastDeclination(m) >>, <<One>>)
      /\ Holds("daily", << EquationOfTime(n), EquationOfTime(m) >>, <<I(2)>>)
      /\ Holds("daily", << ApparentFlux(n), ApparentFlux(m) >>, <<I(3)>>)
      /\ Holds("daily", << OpticalDepth(n), OpticalDepth(m) >>, <<I(4)>>)
      /\ Holds("daily", << EarthSunFactor(n), EarthSunFactor(m) >>, <<I(5)>>)
      /\ Holds("next-day", << MulI(60, Sub(Sub(t2, h2), Sub(t1, h1))), MulI(60, Sub(Add(t2, h2), Add(t1, h1))), MulI(60, Sub(t2, t1)) >>, <<>>)
      /\ Holds("longer-days", << MulI(120, h1), MulI(120, HalfDayHours(dt, far)), FastDeclination(n) >>, <<Mid>>)
      /\ Holds("longer-days", << MulI(120, HalfDayHours(dt, FxZero)), MulI(120, h1), FastDeclination(n) >>, <<FxZero>>) \/ Sgn(Mid) < 0
H0 == I(((k * 101) % 11000) - 500)
AirLaws ==
  LET p(h) == PressureAt(h, StdPressure, StdTemperature, LapseRate, FxZero, GasConstant, Gravity, MolarMass)
      a == DivI(I(((k * 71) % 1800) - 900), 10)
      b == FMin(P90, Add(a, DivI(Sec, 1000)))
      n == UtcYearDay(I0)
  IN  /\ Holds("hydrostatic", << p(H0), TemperatureAt(H0, StdTemperature, LapseRate), p(Add(H0, I(5))) >>, <<I(5)>>)
      /\ Holds("radiation", << DirectRadiation(n, a), DirectRadiation(n, b), ApparentFlux(n) >>, <<a, b>>)
=============================================================================
