------------------------------- MODULE Stubs -------------------------------
(***************************************************************************)
(* What the type stubs (pysolar/*.pyi), which are shipped with the package *)
(* and which type checkers and editors read in place of the code, have to  *)
(* declare: every function and value of the public interface, with the     *)
(* parameters of spec/Signatures.tla and types that the actual arguments,  *)
(* answers and values conform to.                                          *)
(*                                                                         *)
(* A declared type is [c |-> head, a |-> parameters]; the type of a value  *)
(* is [m |-> names of its classes, i |-> types of its items], where a      *)
(* dictionary's items are pairs <<key, value>> and a tuple's are its       *)
(* elements in order.                                                      *)
(***************************************************************************)
EXTENDS Signatures
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

In(x, s) == \E k \in 1..Len(s) : s[k] = x

\* the public functions by module, besides those of Sig
MoreSig ==
  [ use_numpy |-> <<>>, use_math |-> <<>>, solar_test |-> <<>>, elevation_test |-> <<>>,
    get_aberration_coeffs |-> <<>>,
    get_coeff |-> Req(<<"jme", "coeffs">>),
    datetime_range |-> Req(<<"start_datetime", "end_datetime", "step_minutes">>),
    simulate_span |-> Req(<<"latitude_deg", "longitude_deg", "horizon", "start_datetime", "end_datetime", "step_minutes">>)
                      \o << DElev, DTemp, DPress >> ]
SigOf(op) == IF op \in Ops THEN Sig[op] ELSE MoreSig[op]
SolartimeOps == { "get_leap_seconds", "get_delta_t", "get_julian_solar_day", "get_julian_ephemeris_day", "get_julian_century",
                  "get_julian_ephemeris_century", "get_julian_ephemeris_millennium" }
RadiationOps == { "get_air_mass_ratio", "get_apparent_extraterrestrial_flux", "get_optical_depth", "get_radiation_direct" }
ElevationOps == { "get_pressure_with_elevation", "get_temperature_with_elevation" }
UtilOps == { "get_sunrise_sunset_transit", "get_sunrise_sunset", "get_sunrise_time", "get_sunset_time", "get_transit_time",
             "mean_earth_sun_distance", "extraterrestrial_irrad", "declination_degree", "solarelevation_function_clear",
             "solarelevation_function_overcast", "diffuse_transmittance", "diffuse_underclear", "diffuse_underovercast",
             "direct_underclear", "global_irradiance_clear", "global_irradiance_overcast", "diffuse_ratio", "clear_index" }
SolarOps == { "get_topocentric_position", "get_position", "get_altitude", "get_azimuth", "get_altitude_fast", "get_azimuth_fast",
              "get_hour_angle", "get_solar_time", "equation_of_time", "get_declination", "get_aberration_correction",
              "get_apparent_sidereal_time", "get_apparent_sun_longitude", "get_equatorial_horizontal_parallax", "get_flattened_latitude",
              "get_geocentric_latitude", "get_geocentric_longitude", "get_geocentric_sun_declination", "get_geocentric_sun_right_ascension",
              "get_heliocentric_latitude", "get_heliocentric_longitude", "get_incidence_angle", "get_local_hour_angle",
              "get_mean_sidereal_time", "get_nutation", "get_parallax_sun_right_ascension", "get_projected_radial_distance",
              "get_projected_axial_distance", "get_sun_earth_distance", "get_refraction_correction", "get_topocentric_azimuth_angle",
              "get_topocentric_elevation_angle", "get_topocentric_local_hour_angle", "get_topocentric_sun_declination",
              "get_topocentric_sun_right_ascension", "get_topocentric_zenith_angle", "get_true_ecliptic_obliquity" }
\* functions, and values a caller may read
Interface ==
  [ solartime |-> [f |-> SolartimeOps, v |-> { "leap_seconds_base_year", "leap_seconds_adjustments", "delta_t_base_year", "delta_t_base_month", "delta_t" }],
    radiation |-> [f |-> RadiationOps, v |-> {}],
    elevation |-> [f |-> ElevationOps \cup {"elevation_test"}, v |-> {}],
    util |-> [f |-> UtilOps, v |-> { "AM_default", "TL_default", "SC_default", "TY_default", "elevation_default" }],
    solar |-> [f |-> SolarOps \cup {"solar_test", "get_coeff"}, v |-> { "radiation" }],
    simulate |-> [f |-> {"datetime_range", "simulate_span"}, v |-> {}],
    constants |-> [f |-> {"get_aberration_coeffs"},
                   v |-> { "earth_radius", "earth_axis_inclination", "seconds_per_day", "standard_pressure", "standard_temperature",
                           "celsius_offset", "earth_temperature_lapse_rate", "air_gas_constant", "earth_gravity",
                           "earth_atmosphere_molar_mass", "aberration_sin_terms", "nutation_coefficients",
                           "heliocentric_longitude_coeffs", "heliocentric_latitude_coeffs", "sun_earth_distance_coeffs" }],
    pysolar |-> [f |-> {"use_numpy", "use_math"}, v |-> {}] ]
DeclaresAll(mod, names) ==
  mod \in DOMAIN Interface => \A n \in Interface[mod].f \cup Interface[mod].v : In(n, names)

\* a declared function: par, and real, its parameters in the code: [n |-> name, o |-> 1 if it may be left out]
AsDeclared(sg, par) ==
  /\ Len(par) >= Len(sg)
  /\ \A k \in 1..Len(sg) : par[k].n = sg[k][1] /\ (par[k].o = 1 <=> ~Has(sg[k][2], "none"))
  /\ \A k \in (Len(sg) + 1)..Len(par) : par[k].o = 1
AsDefined(real, par) ==
  /\ Len(par) <= Len(real)
  /\ \A k \in 1..Len(par) : par[k].n = real[k].n /\ par[k].o = real[k].o
  /\ \A k \in (Len(par) + 1)..Len(real) : real[k].o = 1
FunctionOk(op, real, par) ==
  /\ op \in Ops \cup DOMAIN MoreSig => AsDeclared(SigOf(op), par)
  /\ AsDefined(real, par)

RECURSIVE Conforms(_, _)
Conforms(v, ty) ==
  CASE ty.c \in {"Any", "object"} -> TRUE
    [] ty.c \in {"Union", "Optional"} -> \/ \E k \in 1..Len(ty.a) : Conforms(v, ty.a[k])
                                         \/ ty.c = "Optional" /\ In("NoneType", v.m)
    [] ty.c = "None" -> In("NoneType", v.m)
    [] ty.c = "float" -> In("float", v.m) \/ In("int", v.m)                 \* an int will do for a float
    [] ty.c \in {"List", "Sequence", "Iterable", "Iterator", "Generator"} ->
         /\ CASE ty.c \in {"Iterator", "Generator"} -> In(ty.c, v.m)
              [] OTHER -> In("list", v.m) \/ In("tuple", v.m) \/ (ty.c = "Iterable" /\ In("Iterator", v.m))
         /\ Len(ty.a) > 0 => \A k \in 1..Len(v.i) : Conforms(v.i[k], ty.a[1])
    [] ty.c \in {"Dict", "Mapping"} ->
         /\ In("dict", v.m)
         /\ Len(ty.a) = 2 => \A k \in 1..Len(v.i) : Conforms(v.i[k][1], ty.a[1]) /\ Conforms(v.i[k][2], ty.a[2])
    [] ty.c = "Tuple" ->
         /\ In("tuple", v.m)
         /\ IF Len(ty.a) = 2 /\ ty.a[2].c = "..." THEN \A k \in 1..Len(v.i) : Conforms(v.i[k], ty.a[1])
            ELSE Len(ty.a) > 0 => Len(ty.a) = Len(v.i) /\ \A k \in 1..Len(v.i) : Conforms(v.i[k], ty.a[k])
    [] ty.c = "Callable" -> In("Callable", v.m)
    [] OTHER -> In(ty.c, v.m)
\* no part of a declaration names something that is not a type
RECURSIVE RealType(_)
RealType(ty) == ty.c # "?" /\ \A k \in 1..Len(ty.a) : RealType(ty.a[k])
=============================================================================
