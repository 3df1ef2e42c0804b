----------------------------- MODULE Contract -----------------------------
(***************************************************************************)
(* What a call may return.  For each operation of the interface:           *)
(*                                                                         *)
(*   Expected(op, a, eph)  =  the acceptable values and tolerance          *)
(*   JudgeCall(e, eph)     =  "ok", "known:<deviation>" or "bad:<clause>"  *)
(*                            for a recorded call e with its result e.r    *)
(*                                                                         *)
(* Results are tagged records:  [n |-> fx] number, [nan |-> 1],            *)
(* [inf |-> 1 or -1], [e |-> exception class names], [dt |-> fields]       *)
(* datetime, [tup |-> results], [nut |-> <<lon, obl>>], [arr |-> ...].     *)
(***************************************************************************)
EXTENDS Signatures
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets

T(n) == Dec(1, 0, 1, n)                          \* 10^-n
IsNum(r) == Has(r, "n")
\* the verdict on several clauses: a bad one before a known deviation
IsBad(v) == v # "ok" /\ SubSeq(v, 1, 4) = "bad:"
FirstBad(vs) ==
  LET NotOk == SelectSeq(vs, LAMBDA v : v # "ok")
      Wrong == SelectSeq(NotOk, IsBad)
  IN  IF NotOk = <<>> THEN "ok" ELSE IF Wrong # <<>> THEN Wrong[1] ELSE NotOk[1]
Clause(name, holds) == IF holds THEN "ok" ELSE "bad:" \o name

---------------------------------------------------------------------------
(* An expectation: v value, tol absolute tolerance, wrap TRUE for angles   *)
(* compared modulo 360, dev a sequence of <<known deviation, value>>,      *)
(* alt a sequence of further acceptable values (threshold ambiguities),    *)
(* range the documented range: <<lowest, highest>>, or                     *)
(* <<lowest, bound, "open">> where the bound itself must not occur.        *)
NoRange == <<>>
X(v, tol) == [v |-> v, tol |-> tol, wrap |-> FALSE, alt |-> <<>>, dev |-> <<>>, range |-> NoRange]
XA(v, tol) == [v |-> v, tol |-> tol, wrap |-> TRUE, alt |-> <<>>, dev |-> <<>>, range |-> <<FxZero, D360>>]
\* an azimuth: north is 0, never 360
XN(v, tol) == [XA(v, tol) EXCEPT !.range = <<FxZero, D360, "open">>]
XW(v, tol) == [v |-> v, tol |-> tol, wrap |-> TRUE, alt |-> <<>>, dev |-> <<>>, range |-> NoRange]
\* relative tolerance 10^-r with an absolute floor 10^-f
XR(v, r, f) == X(v, Add(Mul(FAbs(v), T(r)), T(f)))
Ranged(x, lo, hi) == [x EXCEPT !.range = <<lo, hi>>]
Alt(x, vs) == [x EXCEPT !.alt = vs]
Dev(x, ds) == [x EXCEPT !.dev = ds]

Agrees(x, got, v) == IF x.wrap THEN Le(FAbs(AngDiff(got, v)), x.tol) ELSE Near(got, v, x.tol)
JudgeNum(x, r) ==
  IF ~IsNum(r) THEN "bad:finite-number"
  ELSE IF x.range # NoRange /\ (\/ Lt(r.n, x.range[1])
                               \/ Lt(x.range[2], r.n)
                               \/ (Len(x.range) = 3 /\ r.n = x.range[2])) THEN "bad:range"
  ELSE IF Agrees(x, r.n, x.v) \/ \E k \in 1..Len(x.alt) : Agrees(x, r.n, x.alt[k]) THEN "ok"
  ELSE LET D == { k \in 1..Len(x.dev) : Agrees(x, r.n, x.dev[k][2]) }
       IN  IF D # {} THEN "known:" \o x.dev[CHOOSE k \in D : \A j \in D : k <= j][1] ELSE "bad:value"

---------------------------------------------------------------------------
M90 == I(-90)
P90 == I(90)
AbsMax1(x) == FMax(One, FAbs(x))
\* arcsine loses half the digits near +-90 degrees
ElevationTol(cosE) == FMin(T(5), Add(T(9), Div(T(12), FMax(cosE, T(9)))))
\* an azimuth is undefined at the zenith and badly determined around it
AzimuthTol(cosE, a, b) == IF Le(cosE, T(12)) THEN D360 ELSE Add(T(a), Div(T(b), cosE))
NearRefractionEdge(e, d) == Near(e, RefractionThreshold, d)
RefrTol(p, t) == Mul(T(11), Add(One, Div(FAbs(p), Mul(t, I(300)))))

---------------------------------------------------------------------------
(* Functions of numbers only.                                              *)
G(a, f) == a[f].n
Band(a) == a["band"].s = "high-frequency"
NutTol(jce) == Add(T(11), Mul(T(12), FAbs(jce)))

ExpectedStage(op, a) ==
  CASE op = "get_julian_century" ->
         LET v == Century(G(a, "julian_day")) IN X(v, Add(T(13), Mul(FAbs(v), T(12))))
    [] op = "get_julian_ephemeris_century" ->
         LET v == Century(G(a, "julian_ephemeris_day")) IN X(v, Add(T(13), Mul(FAbs(v), T(12))))
    [] op = "get_julian_ephemeris_millennium" -> XR(Millennium(G(a, "julian_ephemeris_century")), 12, 20)
    [] op = "equation_of_time" -> X(EquationOfTime(FloorInt(G(a, "day"))), T(11))
    [] op = "get_declination" -> X(FastDeclination(FloorInt(G(a, "day"))), T(11))
    [] op = "get_aberration_correction" -> XR(Aberration(G(a, "sun_earth_distance")), 12, 18)
    [] op = "get_mean_sidereal_time" ->
         LET j == G(a, "jd") IN XA(MeanSiderealTime(j), Add(T(9), Mul(Mul(T(13), I(3)), FAbs(Sub(j, J2000)))))
    [] op = "get_apparent_sidereal_time" ->
         LET j == G(a, "jd")  nu0 == MeanSiderealTime(j)
             eps == TrueObliquity(G(a, "jme"), a["nutation"].nut[2])
             dpsi == a["nutation"].nut[1]
         IN  Dev(XW(ApparentSiderealTime(nu0, dpsi, eps), Add(T(9), Mul(Mul(T(13), I(3)), FAbs(Sub(j, J2000))))),
                 << <<"sidereal-cos-degrees", ApparentSiderealTimeDev(nu0, dpsi, eps)>> >>)
    [] op = "get_apparent_sun_longitude" ->
         XW(ApparentSunLongitude(G(a, "geocentric_longitude"), a["nutation"].nut[1], G(a, "ab_correction")), T(11))
    [] op = "get_equatorial_horizontal_parallax" ->
         LET r == G(a, "sun_earth_distance") IN
         Dev(XR(HorizontalParallax(r), 12, 18), << <<"parallax-inverted", HorizontalParallaxDev(r)>> >>)
    [] op = "get_flattened_latitude" -> Ranged(X(FlattenedLatitude(G(a, "latitude")), T(11)), M90, P90)
    [] op = "get_geocentric_latitude" -> X(GeocentricLatitude(G(a, "jme")), Mul(T(10), AbsMax1(G(a, "jme"))))
    [] op = "get_geocentric_longitude" -> XA(GeocentricLongitude(G(a, "jme")), Mul(T(9), Mul(Two, AbsMax1(G(a, "jme")))))
    [] op = "get_heliocentric_latitude" -> X(HeliocentricLatitude(G(a, "jme")), Mul(T(10), AbsMax1(G(a, "jme"))))
    [] op = "get_heliocentric_longitude" -> XA(HeliocentricLongitude(G(a, "jme")), Mul(T(9), Mul(Two, AbsMax1(G(a, "jme")))))
    [] op = "get_sun_earth_distance" -> X(SunEarthDistance(G(a, "jme")), Mul(T(11), AbsMax1(G(a, "jme"))))
    [] op = "get_geocentric_sun_declination" ->
         LET d == Declination(G(a, "apparent_sun_longitude"), G(a, "true_ecliptic_obliquity"), G(a, "geocentric_latitude"))
         IN  Ranged(X(d, ElevationTol(CosD(d))), M90, P90)
    [] op = "get_geocentric_sun_right_ascension" ->
         XA(RightAscension(G(a, "apparent_sun_longitude"), G(a, "true_ecliptic_obliquity"), G(a, "geocentric_latitude")), T(9))
    [] op = "get_incidence_angle" ->
         LET v == IncidenceAngle(G(a, "topocentric_zenith_angle"), G(a, "slope"), G(a, "slope_orientation"),
                                 G(a, "topocentric_azimuth_angle"))
         IN  Ranged(X(v, ElevationTol(SinD(v))), FxZero, D180)
    [] op = "get_local_hour_angle" ->
         XA(LocalHourAngle(G(a, "apparent_sidereal_time"), G(a, "longitude"), G(a, "geocentric_sun_right_ascension")),
            Mul(T(11), AbsMax1(G(a, "longitude"))))
    [] op = "get_parallax_sun_right_ascension" ->
         XW(ParallaxRightAscension(G(a, "projected_radial_distance"), G(a, "equatorial_horizontal_parallax"),
                                   G(a, "local_hour_angle"), G(a, "geocentric_sun_declination")), T(11))
    [] op = "get_projected_radial_distance" -> X(ProjectedRadialDistance(G(a, "elevation"), G(a, "latitude")), T(12))
    [] op = "get_projected_axial_distance" -> X(ProjectedAxialDistance(G(a, "elevation"), G(a, "latitude")), T(12))
    [] op = "get_refraction_correction" ->
         LET p == G(a, "pressure")  t == G(a, "temperature")  e == G(a, "topocentric_elevation_angle")
             v == Refraction(p, t, e)
             x == X(v, Add(RefrTol(p, t), Mul(T(10), FAbs(v))))
         IN  IF NearRefractionEdge(e, T(12)) THEN Alt(x, << FxZero, Refraction(p, t, Add(RefractionThreshold, T(12))) >>)
             ELSE IF Lt(e, RefractionThreshold) THEN X(FxZero, FxZero) ELSE x
    [] op = "get_topocentric_azimuth_angle" ->
         LET H == G(a, "topocentric_local_hour_angle")  lat == G(a, "latitude")  d == G(a, "topocentric_sun_declination")
         IN  XN(Azimuth(lat, d, H), AzimuthTol(Div(CosElevation(lat, d, H), FMax(One, TanD(FAbs(d)))), 9, 11))
    [] op = "get_topocentric_elevation_angle" ->
         LET H == G(a, "topocentric_local_hour_angle")  lat == G(a, "latitude")  d == G(a, "topocentric_sun_declination")
         IN  Ranged(X(Elevation(lat, d, H), ElevationTol(CosElevation(lat, d, H))), M90, P90)
    [] op = "get_topocentric_local_hour_angle" ->
         XW(TopocentricHourAngle(G(a, "local_hour_angle"), G(a, "parallax_sun_right_ascension")), T(10))
    [] op = "get_topocentric_sun_declination" ->
         LET g(last) == TopocentricDeclinationG(G(a, "geocentric_sun_declination"), G(a, "projected_axial_distance"), last,
                          G(a, "equatorial_horizontal_parallax"), G(a, "parallax_sun_right_ascension"), G(a, "local_hour_angle"))
             y == G(a, "projected_axial_distance")
             \* the radial distance is not among the parameters: the published
             \* value needs it, so only the deviation can be checked here
         IN  Dev(X(I(1000), T(10)), << <<"topocentric-declination-axial", g(y)>> >>)
    [] op = "get_topocentric_sun_right_ascension" ->
         XW(TopocentricRightAscension(G(a, "projected_radial_distance"), G(a, "equatorial_horizontal_parallax"),
              G(a, "local_hour_angle"), G(a, "apparent_sun_longitude"), G(a, "true_ecliptic_obliquity"),
              G(a, "geocentric_latitude")), T(9))
    [] op = "get_topocentric_zenith_angle" ->
         LET H == G(a, "topocentric_local_hour_angle")  lat == G(a, "latitude")  d == G(a, "topocentric_sun_declination")
             p == G(a, "pressure")  t == G(a, "temperature")
             e == Elevation(lat, d, H)   z(c) == Sub(Sub(P90, e), c)
             tol == Mul(ElevationTol(CosElevation(lat, d, H)), Add(One, FAbs(Refraction(p, t, FMax(e, FxZero)))))
             x == X(z(Refraction(p, t, e)), tol)
         IN  IF NearRefractionEdge(e, T(8)) THEN Alt(x, << z(FxZero), z(Refraction(p, t, Add(RefractionThreshold, T(8)))) >>) ELSE x
    [] op = "get_true_ecliptic_obliquity" -> X(TrueObliquity(G(a, "jme"), a["nutation"].nut[2]), T(10))
    [] op = "get_apparent_extraterrestrial_flux" -> X(ApparentFlux(FloorInt(G(a, "day"))), T(10))
    [] op = "get_optical_depth" -> X(OpticalDepth(FloorInt(G(a, "day"))), T(13))
    [] op = "diffuse_transmittance" -> XR(DiffuseTransmittance(G(a, "TL")), 12, 12)
    [] op = "diffuse_ratio" -> XR(Div(G(a, "DIFF_data"), G(a, "ghi_data")), 12, 20)
    [] op = "get_temperature_with_elevation" -> X(TemperatureAt(G(a, "h"), G(a, "Ts"), G(a, "Tl")), T(10))
    [] op = "get_pressure_with_elevation" ->
         LET v == PressureAt(G(a, "h"), G(a, "Ps"), G(a, "Ts"), G(a, "Tl"), G(a, "Hb"), G(a, "R"), G(a, "g"), G(a, "M"))
         IN  IF G(a, "h") = G(a, "Hb") THEN X(G(a, "Ps"), FxZero) ELSE XR(v, 11, 15)

---------------------------------------------------------------------------
(* REST2                                                                   *)
Amt(a) == [p |-> G(a, "pressure_millibars"), uo |-> G(a, "ozone_atm_cm"), un |-> G(a, "nitrogen_atm_cm"),
           w |-> G(a, "precipitable_water_cm"), alpha |-> G(a, "turbidity_alpha"), beta |-> G(a, "turbidity_beta")]
XRest(v) == XR(v, 9, 13)
ExpectedRest(op, a) ==
  CASE op = "get_aerosol_forward_scatterance_factor" -> XRest(AerosolForward(G(a, "altitude_deg")))
    [] op = "get_aerosol_optical_depth" ->
         XRest(AerosolDepth(G(a, "turbidity_beta"), G(a, "effective_wavelength"), G(a, "turbidity_alpha")))
    [] op = "get_aerosol_scattering_correction_factor" -> XRest(AerosolScatterCorrection(Band(a), G(a, "ma"), G(a, "tau_a")))
    [] op = "get_aerosol_transmittance" -> XRest(AerosolTransmittance(G(a, "ma"), G(a, "tau_a")))
    [] op = "get_aerosol_scattering_transmittance" -> XRest(AerosolScatterTransmittance(Band(a), G(a, "ma"), G(a, "tau_a")))
    [] op = "get_backscattered_diffuse_irradiance_by_band" ->
         XRest(Backscattered(Band(a), G(a, "Ebi"), G(a, "Edpi"), G(a, "turbidity_alpha"), G(a, "turbidity_beta")))
    [] op = "get_beam_broadband_irradiance" -> XRest(BroadbandBeam(G(a, "altitude_deg"), Amt(a)))
    [] op = "get_beam_irradiance_by_band" -> XRest(Beam(Band(a), G(a, "altitude_deg"), Amt(a)))
    [] op = "get_broadband_direct_normal_irradiance" -> XRest(BroadbandDirectNormal(G(a, "altitude_deg"), Amt(a)))
    [] op = "get_direct_normal_irradiance_by_band" -> XRest(DirectNormal(Band(a), G(a, "altitude_deg"), Amt(a)))
    [] op = "get_effective_aerosol_wavelength" ->
         XRest(AerosolWavelength(Band(a), G(a, "ma"), G(a, "turbidity_alpha"), G(a, "turbidity_beta")))
    [] op = "get_gas_transmittance" -> XRest(GasTransmittance(Band(a), G(a, "mRprime")))
    [] op = "get_ground_albedo" -> XRest(GroundAlbedo)
    [] op = "get_nitrogen_transmittance" -> XRest(NitrogenTransmittance(Band(a), G(a, "mw"), G(a, "nitrogen_atm_cm")))
    [] op = "get_optical_mass_rayleigh" -> XRest(MassRayleigh(G(a, "altitude_deg"), G(a, "pressure_millibars")))
    [] op = "get_optical_mass_ozone" -> XRest(MassOzone(G(a, "altitude_deg")))
    [] op = "get_optical_mass_water" -> XRest(MassWater(G(a, "altitude_deg")))
    [] op = "get_optical_mass_aerosol" -> XRest(MassAerosol(G(a, "altitude_deg")))
    [] op = "get_ozone_transmittance" -> XRest(OzoneTransmittance(Band(a), G(a, "mo"), G(a, "uo")))
    [] op = "get_rayleigh_extinction_forward_scattering_fraction" -> XRest(RayleighForward(Band(a), G(a, "mR")))
    [] op = "get_rayleigh_transmittance" -> XRest(RayleighTransmittance(Band(a), G(a, "mRprime")))
    [] op = "get_sky_albedo" -> XRest(SkyAlbedo(Band(a), G(a, "turbidity_alpha"), G(a, "turbidity_beta")))
    [] op = "get_water_vapor_transmittance" -> XRest(WaterTransmittance(Band(a), G(a, "mw"), G(a, "w")))
RestOps ==
  { "get_aerosol_forward_scatterance_factor", "get_aerosol_optical_depth", "get_aerosol_scattering_correction_factor",
    "get_aerosol_transmittance", "get_aerosol_scattering_transmittance", "get_backscattered_diffuse_irradiance_by_band",
    "get_beam_broadband_irradiance", "get_beam_irradiance_by_band", "get_broadband_direct_normal_irradiance",
    "get_direct_normal_irradiance_by_band", "get_effective_aerosol_wavelength", "get_gas_transmittance",
    "get_ground_albedo", "get_nitrogen_transmittance", "get_optical_mass_rayleigh", "get_optical_mass_ozone",
    "get_optical_mass_water", "get_optical_mass_aerosol", "get_ozone_transmittance",
    "get_rayleigh_extinction_forward_scattering_fraction", "get_rayleigh_transmittance", "get_sky_albedo",
    "get_water_vapor_transmittance" }
\* outside the published range the wavelength is not positive and has no real power
DirectOps == { "get_beam_broadband_irradiance", "get_beam_irradiance_by_band",
               "get_broadband_direct_normal_irradiance", "get_direct_normal_irradiance_by_band" }
InRestDomain(op, a) ==
  op \in DirectOps =>
    \A hi \in (IF Has(a, "band") THEN {Band(a)} ELSE BOOLEAN) :
      Lt(T(3), AerosolWavelength(hi, MassAerosol(G(a, "altitude_deg")), G(a, "turbidity_alpha"), G(a, "turbidity_beta")))

\* Functions of the diffuse part: which of the published expressions is meant
\* is open (they lack the altitude), but they have to give an irradiance.
DiffuseOps == { "get_global_broadband_irradiance", "get_diffuse_broadband_irradiance", "get_diffuse_irradiance_by_band",
                "get_backscattered_diffuse_broadband_irradiance" }
Unfinished(r) == Has(r, "e") /\ \E k \in 1..Len(r.e) : r.e[k] \in {"NameError", "TypeError"}
JudgeDiffuse(op, a, r) ==
  IF Unfinished(r) THEN "known:rest-diffuse-unfinished"
  ELSE IF ~IsNum(r) THEN "bad:finite-number"
  ELSE LET beam == IF op = "get_global_broadband_irradiance" THEN BroadbandBeam(G(a, "altitude_deg"), Amt(a)) ELSE FxZero
       IN  Clause("range", Le(Sub(beam, T(6)), r.n) /\ Le(r.n, Add(BandFlux(TRUE), BandFlux(FALSE))))

---------------------------------------------------------------------------
(* Functions of an instant, without the ephemeris.                         *)
Ins(a) == Instant(a["when"].dt)
YD(a) == UtcYearDay(Ins(a))
InstantOps ==
  { "get_leap_seconds", "get_delta_t", "get_julian_solar_day", "get_julian_ephemeris_day",
    "get_altitude_fast", "get_azimuth_fast", "get_hour_angle", "get_solar_time", "get_radiation_direct",
    "mean_earth_sun_distance", "extraterrestrial_irrad", "declination_degree", "clear_index" }
JdTol == Mul(Two, T(9))
ExpectedInstant(op, a) ==
  CASE op = "get_leap_seconds" -> X(I(TaiMinusUtc(Ins(a))), FxZero)
    [] op = "get_delta_t" -> X(DeltaT(Ins(a)), T(9))
    [] op = "get_julian_solar_day" -> X(JulianSolarDay(Ins(a)), JdTol)
    [] op = "get_julian_ephemeris_day" -> X(JulianEphemerisDay(Ins(a)), JdTol)
    [] op = "get_solar_time" -> X(SolarTime(Ins(a), G(a, "longitude_deg")), Mul(T(12), AbsMax1(G(a, "longitude_deg"))))
    [] op = "get_hour_angle" -> X(HourAngle(Ins(a), G(a, "longitude_deg")), Mul(T(11), AbsMax1(G(a, "longitude_deg"))))
    [] op = "get_altitude_fast" ->
         LET c == FastCosAltitude(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg"))
         IN  Ranged(X(FastAltitude(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg")),
                      Add(ElevationTol(c), Mul(T(11), AbsMax1(G(a, "longitude_deg"))))), M90, P90)
    [] op = "get_azimuth_fast" ->
         LET c == FastCosAltitude(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg"))
         IN  XA(FastAzimuth(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg")),
                IF Le(c, T(5)) THEN D360
                ELSE Add(Div(Mul(T(6), I(4)), c), Mul(T(11), AbsMax1(G(a, "longitude_deg")))))
    [] op = "get_radiation_direct" ->
         LET v == DirectRadiation(YD(a), G(a, "altitude_deg"))
         IN  IF Le(G(a, "altitude_deg"), FxZero) THEN X(FxZero, FxZero)
             ELSE Ranged(X(v, Add(T(9), Mul(T(11), v))), FxZero, ApparentFlux(YD(a)))
    [] op = "mean_earth_sun_distance" -> X(EarthSunFactor(YD(a)), T(12))
    [] op = "declination_degree" -> X(DeclinationOfDay(YD(a), G(a, "TY")), T(10))
    [] op = "extraterrestrial_irrad" ->
         LET sc == G(a, "SC")
             s == SinSunElevation(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg"))
             v == Extraterrestrial(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg"), sc)
         IN  IF Lt(s, FNeg(Mul(T(12), AbsMax1(G(a, "longitude_deg"))))) THEN X(FxZero, FxZero)
             ELSE X(v, Mul(Mul(T(12), AbsMax1(sc)), AbsMax1(G(a, "longitude_deg"))))
    [] op = "clear_index" ->
         LET s == SinSunElevation(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg"))
             v == Div(G(a, "ghi_data"), Extraterrestrial(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg"), I(1367)))
         IN  X(v, Mul(Mul(AbsMax1(v), Div(T(11), s)), AbsMax1(G(a, "longitude_deg"))))
InstantDomain(op, a) ==
  op = "clear_index" => Lt(T(4), SinSunElevation(Ins(a), G(a, "latitude_deg"), G(a, "longitude_deg")))

---------------------------------------------------------------------------
(* Functions of the whole algorithm; eph is the ephemeris of the instant.  *)
EphOps ==
  { "get_topocentric_position", "get_position", "get_altitude", "get_azimuth",
    "solarelevation_function_clear", "solarelevation_function_overcast", "diffuse_underclear",
    "diffuse_underovercast", "direct_underclear", "global_irradiance_clear", "global_irradiance_overcast" }
\* the three known deviations may be present in any combination
Variants == << <<2, 2, 2>>, <<1, 2, 2>>, <<2, 1, 2>>, <<2, 2, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<2, 1, 1>>, <<1, 1, 1>> >>
DevNames == << "sidereal-cos-degrees", "parallax-inverted", "topocentric-declination-axial" >>
RECURSIVE JoinDevs(_, _, _)
JoinDevs(v, k, s) ==
  IF k > 3 THEN s
  ELSE JoinDevs(v, k + 1, IF v[k] = 1 THEN s ELSE (IF s = "" THEN "" ELSE s \o "+") \o DevNames[k])
VariantName(v) == IF v = <<1, 1, 1>> THEN "ok" ELSE "known:" \o JoinDevs(v, 1, "")

PosTol == Mul(I(6), T(7))                       \* degrees: half a unit in the last place of the Julian day, times 361
LonTol(a) == Mul(PosTol, AbsMax1(Div(G(a, "longitude_deg"), I(1000000))))
\* one variant: the judged clauses of one result
AltOf(lat, top, p, t) ==                          \* all acceptable altitudes, best first
  LET e == Elevation(lat, top[1], top[2])
      a1 == Add(e, Refraction(p, t, e))
  IN  IF NearRefractionEdge(e, Mul(I(4), T(6)))
      THEN << a1, e, Add(e, Refraction(p, t, Add(RefractionThreshold, T(5)))) >> ELSE << a1 >>
AltTol(a, lat, top, p, t) ==
  LET c == CosElevation(lat, top[1], top[2])
  IN  Mul(Add(LonTol(a), ElevationTol(c)), Add(One, FAbs(Refraction(p, t, FxZero))))
JudgeAlt(a, top, p, t, r) ==
  LET lat == G(a, "latitude_deg")
      as == AltOf(lat, top, p, t)
  IN  JudgeNum(Alt(X(as[1], AltTol(a, lat, top, p, t)), as), r)
JudgeAz(a, top, r) ==
  LET lat == G(a, "latitude_deg")
      c == CosElevation(lat, top[1], top[2])
      hc == FMax(T(12), CosD(top[1]))
  IN  JudgeNum(XN(Azimuth(lat, top[1], top[2]), IF Le(c, T(6)) THEN D360 ELSE Div(LonTol(a), c)), r)
DirectSky == { "direct_underclear", "global_irradiance_clear" }
SkyTol(slope, a, lat, top, p, t) == Mul(AltTol(a, lat, top, p, t), slope)

JudgeEphVariant(op, a, eph, v, r) ==
  LET lat == G(a, "latitude_deg")
      top == Topocentric(eph, lat, G(a, "longitude_deg"), G(a, "elevation"), v)
  IN  CASE op = "get_topocentric_position" ->
             IF ~Has(r, "tup") \/ Len(r.tup) # 2 THEN "bad:pair"
             ELSE FirstBad(<< JudgeNum(X(top[1], PosTol), r.tup[1]), JudgeNum(XW(top[2], LonTol(a)), r.tup[2]) >>)
        [] op = "get_azimuth" -> JudgeAz(a, top, r)
        [] op = "get_altitude" -> JudgeAlt(a, top, G(a, "pressure"), G(a, "temperature"), r)
        [] op = "get_position" ->
             IF ~Has(r, "tup") \/ Len(r.tup) # 2 THEN "bad:pair"
             ELSE FirstBad(<< JudgeAz(a, top, r.tup[1]), JudgeAlt(a, top, G(a, "pressure"), G(a, "temperature"), r.tup[2]) >>)
        [] OTHER ->                                \* clear and overcast skies
             LET p == G(a, "pressure")  t == G(a, "temperature")
                 n == UtcYearDay(eph.key)
                 as == AltOf(lat, top, p, t)
                 ty == G(a, "TY")  am == G(a, "AM")  tl == G(a, "TL")
                 f(alt) ==
                   CASE op = "solarelevation_function_clear" -> SolarElevationClear(alt)
                     [] op = "solarelevation_function_overcast" -> SolarElevationOvercast(alt)
                     [] op \in {"diffuse_underclear", "diffuse_underovercast"} -> DiffuseSky(n, alt, tl)
                     [] op = "direct_underclear" -> DirectUnderClear(n, alt, am, tl)
                     [] op = "global_irradiance_clear" -> Add(DirectUnderClear(n, alt, am, tl), DiffuseSky(n, alt, tl))
                     [] op = "global_irradiance_overcast" -> GlobalOvercast(alt)
                 fdev(alt) ==
                   IF op = "direct_underclear" THEN DirectUnderClearDev(n, alt, ty, am, tl)
                   ELSE Add(DirectUnderClearDev(n, alt, ty, am, tl), DiffuseSky(n, alt, tl))
                 \* slope of f in the altitude (degrees), from above
                 slope(direct) ==
                   CASE op \in {"solarelevation_function_clear", "solarelevation_function_overcast"} -> One
                     [] op \in {"diffuse_underclear", "diffuse_underovercast"} ->
                          Mul(Dec(1, 0, 11, 1), FAbs(DiffuseTransmittance(tl)))
                     [] op = "global_irradiance_overcast" -> I(572)
                     [] OTHER -> Add(Div(FAbs(direct), I(50)), Mul(Dec(1, 0, 11, 1), FAbs(DiffuseTransmittance(tl))))
                 judged(g(_), direct) ==
                   LET v1 == g(as[1]) IN
                   JudgeNum(Alt(X(v1, Add(SkyTol(slope(direct), a, lat, top, p, t), Mul(T(11), FAbs(v1)))),
                                [k \in 1..Len(as) |-> g(as[k])]), r)
                 right == judged(f, IF op \in DirectSky THEN DirectUnderClear(n, P90, am, tl) ELSE FxZero)
             IN  IF right # "bad:value" \/ op \notin DirectSky THEN right
                 ELSE IF judged(fdev, DirectUnderClearDev(n, P90, ty, am, tl)) = "ok"
                 THEN "known:direct-underclear-declination" ELSE right
Accepted(verdict) == ~IsBad(verdict)
Plus(known, verdict) ==                            \* two sets of deviations
  IF known = "ok" THEN verdict ELSE IF verdict = "ok" THEN known
  ELSE known \o "+" \o SubSeq(verdict, 7, Len(verdict))
JudgeEph(op, a, eph, r) ==
  LET verdict(v) == JudgeEphVariant(op, a, eph, v, r)
      try == verdict(<<2, 2, 2>>) IN
  IF Accepted(try) THEN Plus(VariantName(<<2, 2, 2>>), try)
  ELSE IF try # "bad:value" THEN try
  ELSE LET K == { k \in 2..8 : Accepted(verdict(Variants[k])) }
           k0 == CHOOSE k \in K : \A j \in K : k <= j
       IN  IF K = {} THEN try ELSE Plus(VariantName(Variants[k0]), verdict(Variants[k0]))

---------------------------------------------------------------------------
(* Sunrise, transit, sunset.                                               *)
RiseOps == { "get_sunrise_sunset_transit", "get_sunrise_sunset", "get_sunrise_time", "get_sunset_time", "get_transit_time" }
Ms == T(3)
\* r.dt: the returned local fields and offset; r.off: the UTC offset that the
\* caller's timezone has at that instant
JudgeTime(dt, hours, r) ==
  IF ~Has(r, "dt") THEN "bad:aware-datetime"
  ELSE IF r.off # <<r.dt[8], r.dt[9]>> THEN "bad:timezone"
  ELSE Clause("time", Near(SecondsAfter(r.dt, DayNumber(dt[1], dt[2], dt[3])), UtcSeconds(dt, hours), Ms))
Polar == Sub(One, T(9))
\* sunrise or sunset may fall outside the years 1..9999 that datetime knows
AtTheEndOfTime(dt) == DayNumber(dt[1], dt[2], dt[3]) \in 1..3 \cup 3652057..3652059
JudgeRise(op, a, r) ==
  LET dt == a["when"].dt
      lat == G(a, "latitude_deg")  lon == G(a, "longitude_deg")
      c == CosHalfDay(dt, lat)
      tr == TransitHours(dt, lon)
      names == CASE op = "get_sunrise_sunset_transit" -> <<-1, 1, 0>>
                 [] op = "get_sunrise_sunset" -> <<-1, 1>>
                 [] op = "get_sunrise_time" -> <<-1>>
                 [] op = "get_sunset_time" -> <<1>>
                 [] OTHER -> <<0>>
      res == IF Has(r, "tup") THEN r.tup ELSE <<r>>
      \* at the poles the Sun stands all day at its declination
      pole == AtPole(lat)
      depth == Sub(SinD(Dec(-1, 0, 833, 3)), Mul(SinD(lat), SinD(RsDeclination(LocalYearDay(dt)))))
  IN  IF IF pole THEN Le(FAbs(depth), T(9)) ELSE Le(Polar, FAbs(c)) /\ Le(FAbs(c), Sub(Two, Polar)) THEN "ok"   \* undecided edge
      ELSE IF pole \/ Lt(One, FAbs(c)) THEN Clause("polar", Has(r, "e") /\ \E k \in 1..Len(r.e) : r.e[k] = "ValueError")
      ELSE IF Has(r, "e") THEN Clause("raised", AtTheEndOfTime(dt) /\ \E k \in 1..Len(r.e) : r.e[k] = "OverflowError")
      ELSE IF Len(res) # Len(names) \/ (Len(names) > 1) # Has(r, "tup") THEN "bad:components"
      ELSE LET h == HalfDayHours(dt, lat)
           IN  FirstBad([k \in 1..Len(names) |-> JudgeTime(dt, Add(tr, MulI(names[k], h)), res[k])])
\* On the transition day of a daylight saving rule the local day, counted in
\* the offset of `when', wraps at a slightly different longitude: the noon
\* shift is undecided when 15*offset - lon is within rounding of -180 mod 360.
RiseUndecided(a) ==
  LET x == Mod360(Add(Sub(MulI(15, OffsetHours(a["when"].dt)), G(a, "longitude_deg")), D180))
  IN  Lt(x, T(9)) \/ Lt(Sub(D360, x), T(9))

---------------------------------------------------------------------------
(* Exceptions, air mass, nutation, and the rest.                           *)
JudgeNutation(jce, r) ==
  IF ~Has(r, "nut") THEN "bad:nutation"
  ELSE LET x == Nutation(jce) IN
       FirstBad(<< JudgeNum(X(x[1], NutTol(jce)), r.nut[1]), JudgeNum(X(x[2], NutTol(jce)), r.nut[2]) >>)
JudgeAirMass(alt, r) ==
  IF SinD(alt) = FxZero THEN
    \* at +-180 rounding leaves a huge number
    IF alt = FxZero THEN Clause("infinite", Has(r, "inf")) ELSE "ok"
  ELSE LET v == AirMass(alt)                        \* 10^-24 is all the sine of a tiny angle has
       IN  JudgeNum(X(v, Add(T(15), Add(Mul(FAbs(v), T(11)), Mul(T(22), Sq(v))))), r)
JudgeWater(hi, w, r) ==
  LET c == WaterCoefficients(hi, w) IN
  IF ~Has(r, "tup") \/ Len(r.tup) # Len(c) + 1 THEN "bad:coefficients"
  ELSE FirstBad([k \in 1..Len(c) |-> JudgeNum(XRest(c[k]), r.tup[k + 1])])
H11000 == I(11000)

\* w: the number of warnings raised (operations that document one)
JudgeWarning(e, a) ==
  IF ~Has(e, "w") THEN "ok"
  ELSE CASE e.op = "get_leap_seconds" -> Clause("warning", (e.w > 0) <=> BeyondLeapTable(Ins(a)))
         [] e.op = "get_pressure_with_elevation" -> Clause("warning", (e.w > 0) <=> Lt(H11000, G(a, "h")))
         [] OTHER -> "ok"

JudgeBound(op, a, eph, r) ==
  CASE op \in EphOps -> JudgeEph(op, a, eph, r)
    [] op \in InstantOps -> IF InstantDomain(op, a) THEN JudgeNum(ExpectedInstant(op, a), r) ELSE "ok"
    [] op \in RiseOps -> IF RiseUndecided(a) THEN "ok" ELSE JudgeRise(op, a, r)
    [] op \in DiffuseOps -> JudgeDiffuse(op, a, r)
    [] op \in RestOps -> IF InRestDomain(op, a) THEN JudgeNum(ExpectedRest(op, a), r) ELSE "ok"
    [] op = "get_nutation" -> JudgeNutation(G(a, "jce"), r)
    [] op = "get_air_mass_ratio" -> JudgeAirMass(G(a, "altitude_deg"), r)
    [] op = "get_water_vapor_transmittance_coefficients" -> JudgeWater(Band(a), G(a, "w"), r)
    [] OTHER -> JudgeNum(ExpectedStage(op, a), r)

JudgeCall(e, eph) ==
  LET a == Bind(e) IN FirstBad(<< JudgeWarning(e, a), JudgeBound(e.op, a, eph, e.r) >>)

---------------------------------------------------------------------------
(* Array calls: element by element, with broadcasting.                     *)
Dim(sh, k, n) == IF k > n - Len(sh) THEN sh[k - (n - Len(sh))] ELSE 1     \* right-aligned
MaxLen(shs) == CHOOSE m \in { Len(shs[k]) : k \in 1..Len(shs) } \cup {0} :
                 \A k \in 1..Len(shs) : Len(shs[k]) <= m
Broadcast(shs) ==
  LET n == MaxLen(shs) IN
  [k \in 1..n |-> LET D == { Dim(shs[j], k, n) : j \in 1..Len(shs) } \ {1}
                  IN  IF D = {} THEN 1 ELSE CHOOSE d \in D : TRUE]
Product(sh) == FoldLeft(LAMBDA acc, d : acc * d, 1, sh)
\* multi-index (from 0) of flat index k (from 0)
RECURSIVE Unravel(_, _)
Unravel(k, sh) == IF sh = <<>> THEN <<>>
                  ELSE LET t == Product(Tail(sh)) IN <<k \div t>> \o Unravel(k % t, Tail(sh))
RECURSIVE Ravel(_, _)
Ravel(ix, sh) == IF sh = <<>> THEN 0
                 ELSE (IF sh[1] = 1 THEN 0 ELSE ix[1]) * Product(Tail(sh)) + Ravel(Tail(ix), Tail(sh))
\* element of a value of shape sh seen through the broadcast shape bs
Element(val, bs, k) ==
  IF ~Has(val, "arr") THEN val
  ELSE LET ix == Unravel(k, bs)
           own == SubSeq(ix, Len(bs) - Len(val.arr.sh) + 1, Len(bs))
       IN  val.arr.v[Ravel(own, val.arr.sh) + 1]
ShapeOf(val) == IF Has(val, "arr") THEN val.arr.sh ELSE <<>>
Fits(sh, bs) == Len(sh) <= Len(bs) /\ \A k \in 1..Len(sh) : sh[k] \in {1, bs[k + Len(bs) - Len(sh)]}

JudgeVec(e, eph) ==
  LET a == Bind(e)
      names == DOMAIN a
      shs == SetToSeq({ ShapeOf(a[nm]) : nm \in names })
      bs == Broadcast(shs)
      n == Product(bs)
      elem(k) == [nm \in names |-> Element(a[nm], bs, k)]
      pick(r, k) == IF Has(r, "nut") THEN [nut |-> [j \in 1..2 |-> Element(r.nut[j], bs, k)]] ELSE IF Has(r, "tup") THEN [tup |-> [j \in 1..Len(r.tup) |-> Element(r.tup[j], bs, k)]] ELSE Element(r, bs, k)
      shapeok == IF Has(e.r, "nut") THEN \A j \in 1..2 : ShapeOf(e.r.nut[j]) = bs
                 ELSE IF Has(e.r, "tup") THEN \A j \in 1..Len(e.r.tup) : Fits(ShapeOf(e.r.tup[j]), bs)
                 ELSE ShapeOf(e.r) = bs
  IN  IF Has(e.r, "e") THEN "bad:raised"
      ELSE IF ~shapeok THEN "bad:shape"
      ELSE LET vs == [k \in 1..n |-> JudgeBound(e.op, elem(k - 1), eph, pick(e.r, k - 1))]
           IN  FirstBad(vs)
IsVec(e) == (\E k \in 1..Len(e.p) : Has(e.p[k], "arr")) \/ (Has(e, "k") /\ \E nm \in DOMAIN e.k : Has(e.k[nm], "arr"))
=============================================================================
