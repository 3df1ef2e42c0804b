------------------------------ MODULE Relations ------------------------------
(***************************************************************************)
(* Laws of the Sun that every description of its motion has to respect,    *)
(* whatever formula it uses: relations between the answers to related      *)
(* questions.  Laws.tla checks them on the specification, Trace.tla on     *)
(* what the library answered.                                              *)
(*                                                                         *)
(* x is a sequence of numbers (the answers), q one of parameters.  Angles  *)
(* in degrees, times in seconds.  Altitudes are without refraction unless  *)
(* said otherwise.                                                         *)
(***************************************************************************)
EXTENDS FxMath
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Within(a, b, tol) == Le(FAbs(Sub(a, b)), tol)
\* two directions, an angle apart when seen from the middle: azimuths differ
\* by at most tol / cos(altitude)
SameAzimuth(a, b, alt, tol) == Le(Mul(FAbs(AngDiff(a, b)), CosD(alt)), tol)

RelationHolds(rel, x, q) ==
  CASE \* <<azimuth, altitude>> twice, by the algorithm and by the approximation, 1950..2050
       rel = "fast" ->
         /\ Within(x[2], x[4], Dec(1, 0, 25, 1))
         /\ SameAzimuth(x[1], x[3], x[2], Dec(1, 0, 2, 0))
       \* altitude at sunrise or sunset, latitudes up to 60; the date is the
       \* caller's, which may be a day off the date at the place
    [] rel = "horizon" -> Within(x[1], Dec(-1, 0, 833, 3), Dec(1, 0, 15, 1))
       \* altitude and azimuth at the transit, then altitudes at other times of that day
    [] rel = "transit" ->
         /\ Le(Mul(FAbs(SinD(x[2])), CosD(x[1])), Dec(1, 0, 5, 3))
         /\ \A k \in 3..Len(x) : Le(x[k], Add(x[1], Dec(1, 0, 2, 2)))
       \* altitude, the same after q[1] seconds: the Earth turns by at most 15.12 degrees an
       \* hour; a leap second and a new month's Delta T are worth another second
    [] rel = "turning" -> Within(x[1], x[2], Mul(Dec(1, 0, 42, 4), Add(q[1], Dec(1, 0, 12, 1))))
       \* the same of the approximation, from one minute to the next and from one day to the next
    [] rel = "turning-fast" -> Within(x[1], x[2], Dec(1, 0, 1, 0))
       \* <<azimuth, altitude>>, and those q[1] <= 3600 seconds later where the hour angle is the same
    [] rel = "shifted" ->
         /\ Within(x[2], x[4], Dec(1, 0, 25, 3))
         /\ SameAzimuth(x[1], x[3], x[2], Dec(1, 0, 25, 3))
       \* <<azimuth, altitude>>, and those a whole turn of longitude further
    [] rel = "turn" ->
         /\ Within(x[2], x[4], Dec(1, 0, 1, 8))
         /\ SameAzimuth(x[1], x[3], x[2], Dec(1, 0, 1, 6))
       \* altitudes at q[1] Pa and at none, q[2] K; then at a higher pressure, at a higher temperature
    [] rel = "refraction" ->
         /\ Le(x[2], x[1])
         /\ Le(Sub(x[1], x[2]), Mul(Dec(1, 0, 7, 1), Mul(Div(q[1], I(101000)), Div(I(283), q[2]))))
         /\ Le(x[1], x[3]) /\ Le(x[4], x[1])
       \* altitudes at the north pole, two of them, at the south pole; the declination by day of the year
    [] rel = "poles" ->
         /\ Within(x[1], x[2], Dec(1, 0, 6, 3))
         /\ Within(x[1], FNeg(x[3]), Dec(1, 0, 1, 2))
         /\ Within(x[1], x[4], Dec(1, 0, 19, 1))
       \* the distance of the Sun, the factor by day of the year, the extraterrestrial flux
    [] rel = "distance" ->
         /\ Le(Dec(1, 0, 983, 3), x[1]) /\ Le(x[1], Dec(1, 1, 17, 3))
         /\ Within(x[2], Div(One, Sq(x[1])), Dec(1, 0, 4, 3))
         /\ Within(x[3], MulI(1160, Div(One, Sq(x[1]))), I(45))
       \* altitudes of the observer at the sea and q[1] <= 9000 m above it
    [] rel = "height" -> Within(x[1], x[2], Dec(1, 0, 1, 5))
       \* altitudes as far below the sea as above it, and at the sea in between: not near the zenith
    [] rel = "depth" -> Le(FAbs(x[2]), I(80)) => Within(Add(x[1], x[3]), MulI(2, x[2]), Dec(1, 0, 1, 9))
       \* direct radiation at altitude q[1], at q[2] > q[1], and the extraterrestrial flux
    [] rel = "radiation" ->
         /\ (Sgn(q[1]) <= 0 => x[1] = FxZero) /\ Sgn(x[1]) >= 0
         /\ Le(x[1], x[2]) /\ Le(x[2], x[3]) /\ (Sgn(q[2]) > 0 => Lt(x[2], x[3]))
       \* direct radiation at altitudes q[1] < q[2] < ...
    [] rel = "climb" -> \A k \in 1..(Len(x) - 1) : Le(x[k], x[k + 1])
       \* refraction at pressures q[1] < q[2] < ..., then at temperatures falling from one to the next
    [] rel = "denser" -> \A k \in 1..(Len(x) - 1) :
         /\ Le(x[k], x[k + 1])
         /\ (Lt(Mul(Dec(1, 0, 1, 3), q[k]), FAbs(Sub(q[k], q[k + 1]))) => Lt(x[k], x[k + 1]))
       \* pressure and temperature at a height, pressure q[1] <= 10 m higher: the weight of the air between
    [] rel = "hydrostatic" ->
         LET w == Mul(Mul(Dec(1, 0, 341632, 7), Div(x[1], x[2])), q[1])
         IN  Within(Sub(x[1], x[3]), w, Mul(Dec(1, 0, 2, 3), w))
       \* altitudes at the two sides of a year: the same UTC time four years (1461 days) later, 1901..2099
    [] rel = "four-years" -> Within(x[1], x[2], Dec(1, 0, 5, 2))
       \* by day of the year, one day and the next (1 follows the last): declination, equation of
       \* time (minutes), extraterrestrial flux, optical depth, distance
    [] rel = "daily" -> Within(x[1], x[2], CASE q[1] = One -> Dec(1, 0, 42, 2) [] q[1] = I(2) -> Dec(1, 0, 6, 1) [] q[1] = I(3) -> Dec(1, 0, 14, 1) [] q[1] = I(4) -> Dec(1, 0, 7, 4) [] q[1] = I(5) -> Dec(1, 0, 7, 4))
       \* sunrise, sunset, transit: minutes by which the next day's differ, latitudes up to 60
    [] rel = "next-day" -> Within(x[1], FxZero, I(6)) /\ Within(x[2], FxZero, I(6)) /\ Within(x[3], FxZero, Dec(1, 0, 12, 1))
       \* minutes from sunrise to sunset at latitude q[1] and at one further north, up to 60; declination:
       \* the summer's side has the longer days
    [] rel = "longer-days" ->
         /\ Lt(FxZero, x[1]) /\ Lt(x[1], I(1440))
         /\ (Lt(I(2), x[3]) => Le(x[1], Add(x[2], Dec(1, 0, 1, 3))))
         /\ (Lt(x[3], I(-2)) /\ Le(FxZero, q[1]) => Le(x[2], Add(x[1], I(4))))
         /\ (q[1] = FxZero => Within(x[1], I(727), I(2)))
=============================================================================
