---------------------------- MODULE Signatures ----------------------------
(***************************************************************************)
(* The public call interface: for every operation the documented parameter *)
(* names in order, with the defaults that are physical or tabulated        *)
(* constants written out here, not read from the code.                     *)
(*                                                                         *)
(* Values are tagged records:  [n |-> fx]  number,  [dt |-> fields] aware  *)
(* datetime, [nut |-> <<lon, obl>>] a nutation, [s |-> string], [arr |->   *)
(* [sh |-> shape, v |-> elements]].                                        *)
(***************************************************************************)
EXTENDS Rest2
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

Required == [none |-> 1]
Num(x) == [n |-> x]
R1(a) == <<a, Required>>
DTemp == <<"temperature", Num(StdTemperature)>>
DPress == <<"pressure", Num(StdPressure)>>
DElev == <<"elevation", Num(FxZero)>>
DTY == <<"TY", Num(D365)>>
DAM == <<"AM", Num(I(2))>>
DTL == <<"TL", Num(One)>>
Place == << R1("latitude_deg"), R1("longitude_deg"), R1("when") >>
When == << R1("when") >>
DAlpha == <<"turbidity_alpha", Num(Dec(1, 0, 13, 1))>>
DBeta == <<"turbidity_beta", Num(Dec(1, 0, 6, 1))>>
Amounts == << <<"pressure_millibars", Num(StdMillibars)>>, <<"ozone_atm_cm", Num(Dec(1, 0, 35, 2))>>,
              <<"nitrogen_atm_cm", Num(Dec(1, 0, 2, 4))>>, <<"precipitable_water_cm", Num(I(5))>>,
              DAlpha, DBeta >>
Req(names) == [k \in 1..Len(names) |-> R1(names[k])]

Sig ==
  [ get_leap_seconds |-> When, get_delta_t |-> When,
    get_julian_solar_day |-> When, get_julian_ephemeris_day |-> When,
    get_julian_century |-> Req(<<"julian_day">>),
    get_julian_ephemeris_century |-> Req(<<"julian_ephemeris_day">>),
    get_julian_ephemeris_millennium |-> Req(<<"julian_ephemeris_century">>),
    \* positions
    get_topocentric_position |-> Place \o << DElev >>,
    get_position |-> Place \o << DElev, DTemp, DPress >>,
    get_altitude |-> Place \o << DElev, DTemp, DPress >>,
    get_azimuth |-> Place \o << DElev >>,
    get_altitude_fast |-> Place, get_azimuth_fast |-> Place,
    get_hour_angle |-> << R1("when"), R1("longitude_deg") >>,
    get_solar_time |-> << R1("longitude_deg"), R1("when") >>,
    equation_of_time |-> Req(<<"day">>), get_declination |-> Req(<<"day">>),
    \* stages of the algorithm
    get_aberration_correction |-> Req(<<"sun_earth_distance">>),
    get_apparent_sidereal_time |-> Req(<<"jd", "jme", "nutation">>),
    get_apparent_sun_longitude |-> Req(<<"geocentric_longitude", "nutation", "ab_correction">>),
    get_equatorial_horizontal_parallax |-> Req(<<"sun_earth_distance">>),
    get_flattened_latitude |-> Req(<<"latitude">>),
    get_geocentric_latitude |-> Req(<<"jme">>), get_geocentric_longitude |-> Req(<<"jme">>),
    get_geocentric_sun_declination |->
      Req(<<"apparent_sun_longitude", "true_ecliptic_obliquity", "geocentric_latitude">>),
    get_geocentric_sun_right_ascension |->
      Req(<<"apparent_sun_longitude", "true_ecliptic_obliquity", "geocentric_latitude">>),
    get_heliocentric_latitude |-> Req(<<"jme">>), get_heliocentric_longitude |-> Req(<<"jme">>),
    get_incidence_angle |->
      Req(<<"topocentric_zenith_angle", "slope", "slope_orientation", "topocentric_azimuth_angle">>),
    get_local_hour_angle |->
      Req(<<"apparent_sidereal_time", "longitude", "geocentric_sun_right_ascension">>),
    get_mean_sidereal_time |-> Req(<<"jd">>),
    get_nutation |-> Req(<<"jce">>),
    get_parallax_sun_right_ascension |->
      Req(<<"projected_radial_distance", "equatorial_horizontal_parallax", "local_hour_angle",
            "geocentric_sun_declination">>),
    get_projected_radial_distance |-> Req(<<"elevation", "latitude">>),
    get_projected_axial_distance |-> Req(<<"elevation", "latitude">>),
    get_sun_earth_distance |-> Req(<<"jme">>),
    get_refraction_correction |-> Req(<<"pressure", "temperature", "topocentric_elevation_angle">>),
    get_topocentric_azimuth_angle |->
      Req(<<"topocentric_local_hour_angle", "latitude", "topocentric_sun_declination">>),
    get_topocentric_elevation_angle |->
      Req(<<"latitude", "topocentric_sun_declination", "topocentric_local_hour_angle">>),
    get_topocentric_local_hour_angle |-> Req(<<"local_hour_angle", "parallax_sun_right_ascension">>),
    get_topocentric_sun_declination |->
      Req(<<"geocentric_sun_declination", "projected_axial_distance", "equatorial_horizontal_parallax",
            "parallax_sun_right_ascension", "local_hour_angle">>),
    get_topocentric_sun_right_ascension |->
      Req(<<"projected_radial_distance", "equatorial_horizontal_parallax", "local_hour_angle",
            "apparent_sun_longitude", "true_ecliptic_obliquity", "geocentric_latitude">>),
    get_topocentric_zenith_angle |->
      Req(<<"latitude", "topocentric_sun_declination", "topocentric_local_hour_angle", "pressure",
            "temperature">>),
    get_true_ecliptic_obliquity |-> Req(<<"jme", "nutation">>),
    \* radiation
    get_air_mass_ratio |-> Req(<<"altitude_deg">>),
    get_apparent_extraterrestrial_flux |-> Req(<<"day">>), get_optical_depth |-> Req(<<"day">>),
    get_radiation_direct |-> Req(<<"when", "altitude_deg">>),
    \* util
    get_sunrise_sunset_transit |-> Place, get_sunrise_sunset |-> Place, get_sunrise_time |-> Place,
    get_sunset_time |-> Place, get_transit_time |-> Place,
    mean_earth_sun_distance |-> When,
    extraterrestrial_irrad |-> Place \o << <<"SC", Num(I(1367))>> >>,
    declination_degree |-> When \o << DTY >>,
    solarelevation_function_clear |-> Place \o << DTemp, DPress, DElev >>,
    solarelevation_function_overcast |-> Place \o << DElev, DTemp, DPress >>,
    diffuse_transmittance |-> << DTL >>,
    diffuse_underclear |-> Place \o << DElev, DTemp, DPress, DTL >>,
    diffuse_underovercast |-> Place \o << DElev, DTemp, DPress, DTL >>,
    direct_underclear |-> Place \o << DTY, DAM, DTL, DElev, DTemp, DPress >>,
    global_irradiance_clear |-> Place \o << DTY, DAM, DTL, DElev, DTemp, DPress >>,
    global_irradiance_overcast |-> Place \o << DElev, DTemp, DPress >>,
    diffuse_ratio |-> Req(<<"DIFF_data", "ghi_data">>),
    clear_index |-> << R1("ghi_data") >> \o Place,
    \* elevation
    get_temperature_with_elevation |->
      << R1("h"), <<"Ts", Num(StdTemperature)>>, <<"Tl", Num(LapseRate)>> >>,
    get_pressure_with_elevation |->
      << R1("h"), <<"Ps", Num(StdPressure)>>, <<"Ts", Num(StdTemperature)>>, <<"Tl", Num(LapseRate)>>,
         <<"Hb", Num(FxZero)>>, <<"R", Num(GasConstant)>>, <<"g", Num(Gravity)>>, <<"M", Num(MolarMass)>> >>,
    \* rest
    get_aerosol_forward_scatterance_factor |-> Req(<<"altitude_deg">>),
    get_aerosol_optical_depth |-> Req(<<"turbidity_beta", "effective_wavelength", "turbidity_alpha">>),
    get_aerosol_scattering_correction_factor |-> Req(<<"band", "ma", "tau_a">>),
    get_aerosol_transmittance |-> Req(<<"band", "ma", "tau_a">>),
    get_aerosol_scattering_transmittance |-> Req(<<"band", "ma", "tau_a">>),
    get_backscattered_diffuse_irradiance_by_band |-> Req(<<"band", "Ebi", "Edpi">>) \o << DAlpha, DBeta >>,
    get_beam_broadband_irradiance |-> Req(<<"altitude_deg">>) \o Amounts,
    get_beam_irradiance_by_band |-> Req(<<"band", "altitude_deg">>) \o Amounts,
    get_broadband_direct_normal_irradiance |-> Req(<<"altitude_deg">>) \o Amounts,
    get_direct_normal_irradiance_by_band |-> Req(<<"band", "altitude_deg">>) \o Amounts,
    get_effective_aerosol_wavelength |-> Req(<<"band", "ma", "turbidity_alpha", "turbidity_beta">>),
    get_gas_transmittance |-> Req(<<"band", "mRprime">>),
    get_global_broadband_irradiance |-> Req(<<"altitude_deg">>) \o Amounts,
    get_diffuse_broadband_irradiance |-> << <<"air_mass", Num(P(166, 2))>>, DAlpha, DBeta >>,
    get_diffuse_irradiance_by_band |-> << R1("band"), <<"air_mass", Num(P(166, 2))>>, DAlpha, DBeta >>,
    get_backscattered_diffuse_broadband_irradiance |-> << R1("band"), DAlpha, DBeta >>,
    get_ground_albedo |-> Req(<<"band">>),
    get_nitrogen_transmittance |-> Req(<<"band", "mw", "nitrogen_atm_cm">>),
    get_optical_mass_rayleigh |-> Req(<<"altitude_deg", "pressure_millibars">>),
    get_optical_mass_ozone |-> Req(<<"altitude_deg">>), get_optical_mass_water |-> Req(<<"altitude_deg">>),
    get_optical_mass_aerosol |-> Req(<<"altitude_deg">>),
    get_ozone_transmittance |-> Req(<<"band", "mo", "uo">>),
    get_rayleigh_extinction_forward_scattering_fraction |-> Req(<<"band", "mR">>),
    get_rayleigh_transmittance |-> Req(<<"band", "mRprime">>),
    get_sky_albedo |-> Req(<<"band", "turbidity_alpha", "turbidity_beta">>),
    get_water_vapor_transmittance |-> Req(<<"band", "mw", "w">>),
    get_water_vapor_transmittance_coefficients |-> Req(<<"band", "w">>) ]

Ops == DOMAIN Sig
Has(rec, f) == f \in DOMAIN rec

\* arguments of a recorded call: positional ones first, then keywords, then defaults
Given(e, op, nm, k) ==
  IF k <= Len(e.p) THEN e.p[k]
  ELSE IF Has(e, "k") /\ Has(e.k, nm) THEN e.k[nm] ELSE Sig[op][k][2]
Bind(e) ==
  LET sg == Sig[e.op] IN
  [ nm \in { sg[k][1] : k \in 1..Len(sg) } |->
      Given(e, e.op, nm, CHOOSE k \in 1..Len(sg) : sg[k][1] = nm) ]
\* the call is well formed: nothing missing, given twice, or unknown
WellFormed(e) ==
  LET sg == Sig[e.op] IN
  /\ Len(e.p) <= Len(sg)
  /\ \A k \in 1..Len(sg) :
       LET given == (IF k <= Len(e.p) THEN 1 ELSE 0) + (IF Has(e, "k") /\ Has(e.k, sg[k][1]) THEN 1 ELSE 0)
       IN  given <= 1 /\ (given = 0 => ~Has(sg[k][2], "none"))
  /\ Has(e, "k") => \A nm \in DOMAIN e.k : \E k \in 1..Len(sg) : sg[k][1] = nm
=============================================================================
