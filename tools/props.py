import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="pysolar/solar.py"; T="pysolar/solartime.py"; U="pysolar/util.py"; N="pysolar/numeric.py"; R="pysolar/radiation.py"; K="pysolar/constants.py"; M="pysolar/simulate.py"; E="pysolar/elevation.py"; Z="pysolar/tzinfo_check.py"; Q="pysolar/rest.py"; G="util/get_delta_t"
p("C01","Leap seconds: TAI-UTC is right at every instant",
"get_leap_seconds returns, for every timezone-aware instant, the number of seconds by which TAI exceeds UTC at that instant: 10 before 1 July 1972, one more from the UTC midnight after each of the 27 announced leap seconds (1972-06-30 ... 2016-12-31), and never anything else. A warning that no data are available is issued exactly for instants from 1 July 2026 UTC on (where the last known value is returned), and never for earlier ones.",
["inputs"],"every UTC instant of years 1..9999, in every timezone representation","the tests look at one or two instants of the years around a few leap seconds; the off-by-one and boundary space (two half-years a year, 54 years, timezone spill-over, end of table, before the table) is not sampled",
[T],[("walk over half-yearly adjustments","pysolar/solartime.py:get_leap_seconds, leap_seconds_adjustments")],["solartime.get_leap_seconds","warnings"])
p("C02","Delta-T: the month's table value, clamped at both ends",
"get_delta_t returns the tabulated USNO value for the UTC month of the instant: the first tabulated value (43.4724 s, February 1973) for every earlier instant and the last one (67.3890 s) for every instant after the table's last month (March 2014? the last tabulated month), whatever the month, day, time or timezone representation. It is therefore constant within a UTC month and depends on nothing but the UTC year and month.",
["inputs"],"every UTC instant of years 1..9999","the tests cover a couple of dates; the table has about 500 entries, three irregular ends and a first year that starts in February",
[T],[("index arithmetic with clamps","pysolar/solartime.py:get_delta_t, delta_t")],["solartime.get_delta_t"])
p("C03","Julian dates follow exactly from UTC, leap seconds and Delta-T",
"For every timezone-aware instant the Julian ephemeris day is the proleptic-Gregorian UTC Julian date plus (TAI-UTC + 32.184 s)/86400, and the Julian solar day is the ephemeris day minus Delta-T/86400. Julian centuries, ephemeris centuries and millennia are the corresponding multiples of 36525 days counted from JD 2451545.0.",
["inputs"],"every instant of years 1..9999 to the microsecond; every finite Julian day for the century functions","the tests check a handful of dates in 1972..2006; nothing checks far dates, sub-second parts, month ends or offsets",
[T],[("timestamp arithmetic","pysolar/solartime.py:get_julian_solar_day, get_julian_ephemeris_day, get_julian_century, get_julian_ephemeris_century, get_julian_ephemeris_millennium")],["solartime.get_julian_*"])
p("C04","Results depend on the instant, not on how its timezone is written",
"Two timezone-aware datetimes that denote the same instant give the same result from every position, time-scale, fast-approximation and radiation function, whichever UTC offset, DST rule, fold or kind of tzinfo object they carry; calendar-dependent results use the UTC calendar date and time. Only the sunrise/sunset family depends on the local date, and it returns instants expressed in the caller's timezone.",
["inputs"],"every instant, every pair of offsets in (-24h, +24h) to the microsecond, fixed, zoneinfo and custom tzinfo classes, both folds, both numeric backends","the tests use UTC and one or two fixed offsets; day, month and year spill-over by the offset is not sampled",
[S,T,N,R,U],[("utctimetuple / timestamp / UTC datetime64","pysolar/solartime.py, pysolar/numeric.py:tm_yday, tm_hour, tm_min")],["all functions taking `when`"])
p("C05","Naive datetimes are refused, aware ones pass through untouched",
"Every public function that documents a timezone-aware `when` (positions, solar time, time scales, and everything in the util module that takes one, but not the direct radiation) raises a ValueError for a naive datetime (one without a timezone, or whose timezone has no offset) and for a non-datetime, before computing anything; for the naive one it is a NoTimeZoneInfoError that names the parameter and the value; whether `when` is given positionally or by keyword and in combination with any other arguments. For an aware datetime or an array of datetime64 the check changes neither the arguments nor the result, and a missing argument is a TypeError as for any Python function. The decorator check_aware_dt does the same for any function and any of its parameters it is given the names of.",
["inputs","programs"],"every guarded function x every way of passing each argument x every kind of value","the tests pass a naive datetime positionally to each function once, in one argument order",
[Z,S,T,U],[("argument-checking decorator","pysolar/tzinfo_check.py:check_aware_dt")],["raised exceptions and results of every guarded function"])
p("C06","Heliocentric longitude, latitude and distance follow the published series",
"For every Julian ephemeris millennium the Earth's heliocentric longitude (in [0,360]), latitude and distance equal the published periodic series of the NREL SPA report (TP-560-34302, table A4.2: the sum over k of JME^k times the sum of A cos(B + C JME)), term for term; geocentric longitude and latitude are their antipodes.",
["inputs"],"every JME; all 196 terms of the three series","a test at one instant (2003-10-17) cannot notice a wrong higher-order term, which is far below its tolerance there and grows with time",
[S,K],[("series tables and their evaluation","pysolar/constants.py:heliocentric_longitude_coeffs, heliocentric_latitude_coeffs, sun_earth_distance_coeffs; pysolar/solar.py:get_coeff")],["solar.get_heliocentric_longitude/latitude, get_sun_earth_distance, get_geocentric_longitude/latitude, get_coeff"])
p("C07","Nutation, obliquity, aberration and sidereal time are the published ones",
"For every instant, nutation in longitude and obliquity (63 terms over the five lunar-solar arguments), true obliquity, aberration correction, apparent solar longitude and mean and apparent sidereal time equal the NREL SPA expressions, to floating-point accuracy. (Known deviation: the equation of the equinoxes takes the cosine of an angle in degrees.)",
["inputs"],"every Julian century, distance and obliquity; all 63 nutation rows and the polynomial coefficients","tests look at one instant, at which most of the 63 rows and all higher powers are below the tolerance",
[S,K],[("tables and polynomials","pysolar/constants.py:nutation_coefficients, aberration_sin_terms, get_aberration_coeffs; pysolar/solar.py:get_nutation, get_true_ecliptic_obliquity, get_aberration_correction, get_mean_sidereal_time, get_apparent_sidereal_time")],["the named functions"])
p("C08","Right ascension, declination, hour angle and parallax are the right sphere",
"For every apparent longitude, obliquity, latitude, elevation and hour angle, geocentric right ascension (in [0,360]) and declination, observer's projected distances on the flattened Earth, local hour angle (in [0,360)), parallax in right ascension, topocentric declination, hour angle and right ascension equal the NREL SPA expressions in the correct quadrant. (Known deviations: the parallax is multiplied instead of divided by the distance, and the topocentric declination uses the axial for the radial projected distance.)",
["inputs"],"all quadrants and the degenerate points (poles, solstices, equinoxes, hour angles 0/90/180/270), elevations from the Dead Sea to orbit","one instant and place in the tests: one quadrant, one hemisphere, one elevation",
[S],[("spherical trigonometry","pysolar/solar.py:get_geocentric_sun_right_ascension ... get_topocentric_sun_right_ascension")],["the named functions"])
p("C09","Altitude, azimuth and zenith angle are the horizon coordinates of the Sun",
"For every latitude in [-90,90], declination and hour angle, the topocentric elevation angle is in [-90,90], the azimuth in [0,360) counted from north through east, and together they are the horizon coordinates of the direction with that declination and hour angle; the topocentric zenith angle is 90 minus elevation minus refraction.",
["inputs"],"the whole sphere of (latitude, declination, hour angle), including poles, zenith and nadir, where rounding must not cause NaN or an exception","the tests have one northern-hemisphere case; quadrant errors and zenith/pole cases need the whole sphere",
[S],[("spherical trigonometry","pysolar/solar.py:get_topocentric_elevation_angle, get_topocentric_azimuth_angle, get_topocentric_zenith_angle")],["the named functions"])
p("C10","Refraction follows the NREL formula above -0.83667 degrees and is zero below",
"For every pressure, temperature and elevation angle, the refraction correction equals (P/101000)(283/T)(1.02/(60 tan(e + 10.3/(e + 5.11)))) with P in pascal and T in kelvin when the elevation angle e is at least -(0.26667 + 0.5667) degrees, and exactly 0 otherwise; it is proportional to pressure and inversely proportional to temperature, and never an error or NaN for any e in [-90, 90].",
["inputs"],"every elevation angle in [-90,90] (with the threshold and the poles of the formula), pressures >= 0, temperatures > 0","two or three points in the tests; threshold, singular point -5.11 and the proportionalities are not sampled",
[S],[("threshold and formula","pysolar/solar.py:get_refraction_correction")],["solar.get_refraction_correction"])
p("C11","Position functions agree with the whole algorithm and with each other",
"For every location, instant, elevation, temperature and pressure, get_position, get_altitude, get_azimuth and get_topocentric_position give the result of the complete NREL solar position algorithm (up to the recorded deviations), with every argument and default reaching the stage that needs it; get_position equals (get_azimuth, get_altitude). The results are finite, altitude in [-90, 91], azimuth in [0, 360), and unchanged by adding a multiple of 360 to the longitude.",
["inputs"],"all latitudes, longitudes, elevations, atmospheres and instants of years 1..9999, both backends","a dozen locations/instants in the tests, with default atmosphere nearly always",
[S,T,K],[("pipeline","pysolar/solar.py:get_topocentric_position, get_position, get_altitude, get_azimuth")],["the four functions"])
p("C12","Documented accuracy against the US Naval Observatory data",
"For the USNO observations shipped with the package (over 6000 places and times of 2008), the azimuth and altitude computed by the package stay within the documented error statistics: in azimuth, a mean error of at most 0.00463, a standard deviation of at most 0.00550 and no error above 0.176 degrees; in altitude 0.0379, 0.0795 and 0.604 degrees (each figure as rounded in the documentation).",
["inputs"],"every row of the shipped observation file","the data file is only read by a script that nobody runs as a test",
[S,T,K,"test/usno_data_6259.txt","doc/index.rst"],[("whole position pipeline","pysolar/solar.py")],["solar.get_altitude, solar.get_azimuth"])
p("C13","Fast approximations follow their textbook formulas",
"For every longitude, latitude and instant, equation of time, declination, solar time, hour angle, fast altitude and fast azimuth equal the textbook approximations evaluated at the UTC day of year, hour and minute (seconds ignored); fast altitude lies in [-90,90] and fast azimuth in [0,360], with no NaN or exception at any place or time. The fast azimuth has the quadrant of the direction with that declination and hour angle.",
["inputs"],"every UTC minute of every year (leap years included), every location, both backends","the tests check a few values in the northern hemisphere winter; the quadrant switch of the azimuth and the domain edges are not sampled",
[S,N],[("closed formulas","pysolar/solar.py:equation_of_time, get_declination, get_solar_time, get_hour_angle, get_altitude_fast, get_azimuth_fast; pysolar/numeric.py:tm_*")],["the named functions"])
p("C14","Sunrise, transit and sunset are right, ordered and of the day asked for",
"For every place and aware datetime at whose latitude the Sun rises and sets that day, get_sunrise_sunset_transit returns sunrise < transit < sunset, symmetric about transit, as datetimes in the caller's timezone, equal to the published declination / equation-of-time series at the local calendar day; transit falls within 12 h 20 min of local noon of the day asked for, and the answer is the same for all `when` on the same local day. Where the Sun does not rise or set a ValueError is raised (within a few days of either end of the calendar, where the answer may lie outside it, OverflowError is allowed); the four wrappers return exactly the corresponding components.",
["inputs"],"all places and dates, longitudes beyond +-180, UTC offsets from -12 to +14 h with sub-hour offsets, DST-change days, polar day and night","the tests check that the functions accept aware datetimes, no value at all",
[U],[("closed formulas and local calendar arithmetic","pysolar/util.py:get_sunrise_sunset_transit and wrappers")],["the five functions"])
p("C15","Direct clear-sky radiation: Masters' model by day, exactly zero by night",
"For every instant and altitude, get_radiation_direct is A exp(-k m) with apparent flux A and optical depth k of the UTC day of year and air mass m = 1/sin(altitude) when the altitude is positive, and exactly 0 (never NaN, infinity or an exception) when it is zero or negative; it is never negative, never exceeds the flux, and does not decrease as the altitude rises from 0 to 90 degrees on a given day. The air mass ratio at altitude zero is infinite.",
["inputs"],"every altitude in [-90, 90] including the neighbourhood of 0 on both sides and -0.0, every day of year, both backends, arrays","two values in the tests; the twilight range just below the horizon is not sampled",
[R],[("closed formulas, day/night mask","pysolar/radiation.py")],["radiation.get_radiation_direct, get_air_mass_ratio, get_apparent_extraterrestrial_flux, get_optical_depth"])
p("C16","Day-of-year factors and extraterrestrial irradiance follow their formulas",
"For every instant, location and solar constant, mean_earth_sun_distance, declination_degree and extraterrestrial_irrad equal their published day-of-year formulas at the UTC day (1 - 0.0335 sin(2 pi (n-94)/365); 23.45 sin(2 pi (n-81)/TY); SC times eccentricity factor times the sine of the solar elevation, and exactly 0 when the Sun is down), so extraterrestrial irradiance is never negative and is proportional to SC. clear_index is the given global irradiance divided by it, and diffuse_ratio the quotient of its arguments, of numbers or (with numpy) arrays of data, element by element.",
["inputs"],"every day of year, hour, place, SC and TY","the tests call these functions once for the absence of an exception; no value is checked",
[U,S],[("closed formulas","pysolar/util.py")],["util.mean_earth_sun_distance, declination_degree, extraterrestrial_irrad, clear_index, diffuse_ratio"])
p("C17","Clear and overcast sky estimates use the caller's Sun and atmosphere",
"Each clear/overcast-sky estimate (solar elevation functions, diffuse, direct and global irradiance) is its documented formula evaluated at the refracted solar altitude for exactly the caller's place, instant, elevation, temperature and pressure, with exactly the caller's turbidity, air mass and year length, by position or keyword, and the documented defaults otherwise. Global clear irradiance is the sum of direct and diffuse for the same arguments.",
["inputs"],"all places, instants and atmospheres; every subset of optional arguments in every passing style","the tests only check that each function accepts an aware datetime with default arguments",
[U],[("closed formulas and argument forwarding","pysolar/util.py:solarelevation_function_*, diffuse_*, direct_underclear, global_irradiance_*")],["the named functions"])
p("C18","Switching between math and numpy is complete and repeatable",
"After any sequence of use_math() and use_numpy() calls with computations in between, the backend in force is the last one chosen, completely: scalar inputs give the same numbers under both backends (to rounding), under math every scalar result is a plain Python number, and arrays are accepted under numpy and refused under math. Without numpy installed everything works with the math backend.",
["histories","configurations"],"every sequence of backend switches interleaved with calls, starting from import, with and without numpy","the tests switch a few times in a fixed order and only print the results",
[N,"pysolar/__init__.py"],[("rebinding of module globals","pysolar/numeric.py:use_numpy, use_math")],["pysolar.use_math, use_numpy, numeric.current_mod, types and values of results"],
[("current backend","which implementation each numeric name is bound to","pysolar/numeric.py globals")])
p("C19","Vectorised calls equal element-wise scalar calls",
"With the numpy backend, calling a position, fast-approximation or radiation function, or one of the formulas they are made of, with arrays of latitudes, longitudes, elevations, atmospheres or angles (and, for the fast functions and radiation, arrays of datetime64 instants) returns, element by element and with broadcasting, the value of the scalar call.",
["inputs"],"all array shapes (including empty, 0-d, 2-d, broadcast) and contents mixing day/night, hemispheres, both sides of every threshold","the tests only check that array calls do not raise",
[S,N,R],[("numpy ufuncs and where","pysolar/numeric.py, pysolar/solar.py")],["results of array calls"])
p("C20","Calls are pure: no history, no mutation",
"Every function's result is determined by its arguments, the pinned tables and the chosen backend alone: repeating a call after any history of other calls (also failing ones and ones broken off in the middle, also in another order, process or run) gives the identical result, no call modifies its arguments or any public table or constant, and generators can be interleaved freely.",
["histories"],"all orders and interleavings of calls of all public functions","each test runs one call in a fixed order and never repeats it",
[S,T,U,R,M,K,N],[("absence of state, memoised polynomial table","pysolar/constants.py:aberration_coeffs")],["results of repeated calls; arguments and module tables before and after"],
[("aberration_coeffs","memoised table of polynomials, built on first use","pysolar/constants.py")])
p("C21","datetime_range yields every step from start, before end, and nothing else",
"datetime_range(start, end, step) yields exactly floor((end - start)/step) datetimes, the n-th being start + n*step (n = 0, 1, ...), evenly spaced, none before start, none at or after end, and nothing when the span is shorter than one step or negative; steps may be fractional minutes, and the datetimes are in the timezone of start.",
["inputs"],"every start, end and positive step, spans over days, months and years, sub-minute remainders","no test calls it",
[M],[("generator over an integer range","pysolar/simulate.py:datetime_range")],["the yielded sequence"])
p("C22","simulate_span reports the Sun's true course, shaded by the horizon",
"simulate_span yields one tuple (time, altitude, azimuth, radiation, shade) per time of datetime_range, in order and in its timezone: altitude and azimuth are those of the position functions for the caller's place, elevation, temperature and pressure; shade is the entry of the horizon (a list, tuple or array of numbers, whole or not) at the azimuth rounded to whole degrees (modulo the horizon's length); radiation is exactly 0 when shade < 380 - round(380 sin(altitude)) and otherwise the direct clear-sky radiation for that time and altitude.",
["inputs"],"every place, span, step, atmosphere and horizon profile, including azimuths that round to 360","no test calls it",
[M],[("generator composing the other functions","pysolar/simulate.py:simulate_span")],["the yielded tuples"])
p("C23","Pressure and temperature versus height follow the barometric model",
"For every height and every set of base values, get_temperature_with_elevation is Ts + h Tl and get_pressure_with_elevation is Ps (Ts/(Ts + Tl (h - Hb)))^(g M/(R Tl)), with the standard atmosphere as defaults; at the base height the pressure is exactly Ps, it decreases strictly with height up to 11 km, and a warning is issued exactly for heights above 11000 m.",
["inputs"],"every height from -500 m to 20 km and base values by position or keyword","a few values at default parameters in the tests",
[E,K],[("closed formulas","pysolar/elevation.py")],["both functions, warnings"])
p("C24","Incidence angle is the angle between the Sun and the surface normal",
"For every zenith angle, azimuth, slope and slope orientation, get_incidence_angle is the angle in [0,180] degrees with cosine cos(z) cos(slope) + sin(slope) sin(z) cos(azimuth - 180 - orientation); it equals the zenith angle for a horizontal surface, is 0 when the surface faces the Sun exactly, and is never NaN or an exception.",
["inputs"],"every zenith angle, slope, orientation and azimuth, especially the aligned and opposed cases, both backends","one case in the tests",
[S],[("closed formula","pysolar/solar.py:get_incidence_angle")],["solar.get_incidence_angle"])
p("C25","The Delta-T table generator reproduces its input or refuses it",
"For every data file whose lines are (year, month, 1, value) for consecutive months, the get_delta_t script prints a Python table that, evaluated, has the first line's year and month as base and holds every value (to 4 decimals) under its year and month, complete years in between, blank lines ignored. For every file with a skipped, repeated or out-of-order month or year, or a day other than 1, it fails with an error instead of printing a complete table.",
["inputs"],"every finite sequence of data lines over well-formed and ill-formed successors, starting and ending in any month","no test runs the script",
[G],[("line-by-line state machine","util/get_delta_t")],["standard output and exit status of the script"],
[("last_year, last_month","where in the table the script is","util/get_delta_t")])
p("C26","REST2 band functions equal the published parameterisation and stay physical",
"For every air mass, turbidity, ozone, nitrogen, water vapour amount, pressure and altitude, the two-band transmittances, optical masses, albedos, aerosol wavelength and direct normal and beam irradiances equal the published REST2 expressions for that band; broadband values are the sum of the two bands, and beam is direct normal times the sine of the altitude. The functions for diffuse, backscattered and global irradiance return an irradiance, global not less than the beam.",
["inputs"],"both bands, altitudes -3..90, the published ranges of the atmospheric amounts, every argument by position or keyword","no test calls the module",
[Q,N],[("closed formulas","pysolar/rest.py")],["functions of pysolar.rest"])
p("C27","First use from several threads is safe",
"Whatever the interleaving of threads that call functions of the package at the same time, including the very first calls after import, every call returns the value it returns when run alone, none fails, and what all threads share (warning filters, locale, working directory, numpy's error state) is afterwards as it was before.",
["schedules"],"every interleaving of two or three threads at the accesses to the lazily built table","no test uses threads",
[K,S],[("check-then-set of a module global","pysolar/constants.py:get_aberration_coeffs")],["results of concurrent calls"],
[("aberration_coeffs","None until the first call completes, then the table of polynomials","pysolar/constants.py")])
p("C28","Far dates, poles and extreme places never break a position",
"For every aware instant whose UTC year lies in 1..9999, every latitude in [-90, 90], every finite longitude and every elevation from -500 to 20000 m, the position, time-scale, fast-approximation and radiation functions return finite numbers in their documented ranges under both backends, and raise nothing.",
["inputs"],"the corners and edges of the input space, in all combinations","the tests stay at mid latitudes and dates between 1972 and 2020",
[S,T,R,N],[("absence of partial operations outside their domain","pysolar/solar.py")],["results of all position functions"])
p("C29","Arguments reach the parameter they are documented for",
"Every public function of solar, solartime, radiation, util, elevation and rest takes its documented parameters in the documented order by position, or by name, in any mixture, and gives the same answer however they are passed. Optional parameters left out have their documented defaults (standard temperature 288.15 K and pressure 101325 Pa, sea level, and the others). A call with a required argument missing, one given twice, an unknown name or a surplus of positional arguments is a TypeError.",
["inputs"],"every function, every number of positional arguments, every set of names","the tests call the functions in one style, nearly always by position",
[S,T,U,R,E,Q,Z],[("signatures and the timezone decorator in front of them","pysolar/*.py")],["results and exceptions of all public functions"])
p("C30","Calls leave the process around them alone",
"Importing the package and calling any of its functions, whether the call succeeds, is refused or fails, prints nothing and changes nothing outside the package: warning filters, numpy's error and print settings, random number state, decimal context, locale, timezone, environment, working directory, import path, logging, signal handlers, threads, open files, and the modules math, datetime, numpy and builtins. The only warnings of the package are the documented ones, for instants after the leap second table and for heights above 11000 m; there are none about deprecated or wrong use of Python or numpy.",
["inputs"],"every function with ordinary, extreme, refused and failing arguments, scalar and array, under both backends, in any order","the tests look at return values only",
["pysolar/__init__.py",S,T,R,U,E,N,M,Q],[("functions without effects","pysolar/*.py")],["standard output, warnings, process state before and after calls"],
[("amb","the settings of the process that belong to the caller","")])
p("C31","Answers to related questions respect the laws of the Sun's motion",
"For every instant of 1950..2050 and every place, the approximations (get_altitude_fast, get_azimuth_fast, declination_degree, mean_earth_sun_distance, the extraterrestrial flux) stay near the exact algorithm (altitude 2.5 degrees, azimuth 2 degrees of arc). At sunrise and sunset up to 60 degrees of latitude the exact unrefracted altitude is -0.833 within 1.5 degrees, and at the transit the Sun stands in the meridian and no other time of that day has it higher. The altitude is a continuous function of time across minutes, months, years, leap days and leap seconds, periodic in longitude, repeats after 1461 days, and an hour of time is 15 degrees of longitude; neighbouring days differ little in declination, equation of time, distance, flux and sunrise, and the hemisphere that leans towards the Sun has the longer days. Refraction lifts the Sun, more with pressure and less with temperature, the poles see it at plus or minus its declination, as many metres below the sea change the altitude as much as above it, direct radiation grows with altitude below the extraterrestrial flux, and pressure falls with height by the weight of the air.",
["inputs"],"every instant, place, time difference and atmosphere","the tests compare single values; none relates two answers",
[S,T,U,R,E],[("independent computations of the same quantity","pysolar/*.py")],["results of several calls, compared with each other"])
p("C32","The documented examples and the built-in demonstrations come out right",
"The examples of the documentation run as written and give the results the documentation shows. solar_test, at whatever instant it is started and under either backend, prints one line for every half hour of the following 24 hours at which the Sun over its site in Boston is above the horizon, in order, none left out and none added: the UTC time, the altitude, the azimuth and the clear-sky direct radiation of that instant. elevation_test prints height, pressure and temperature of the standard atmosphere every 1000 m from 0 to 10000 m.",
["inputs"],"every instant solar_test can be started at, both backends","no test runs the demonstrations or the documentation's examples",
[S,R,E,"doc/index.rst"],[("solar_test","pysolar/solar.py"),("elevation_test","pysolar/elevation.py"),("examples","doc/index.rst")],["printed lines"],
[("gen","the half hours gone by since the start","")])
p("C33","The shipped type stubs describe the package there is",
"The .pyi files, which type checkers and editors read in place of the code, declare every public function and value of their modules, and everything they declare exists. Each declared function has the parameters of the real one, under the same names, in the same order and with the same ones optional. The declared types are types, and the documented arguments, the answers of every call and the values of every module variable conform to them (an int does for a float, and under the numpy backend an array without dimensions for a number).",
["inputs"],"every declaration, and every call with documented arguments under both backends","the tests never read the stubs",
["pysolar/*.pyi"],[("type stubs","pysolar/*.pyi"),("the functions they describe","pysolar/*.py")],["declarations, and types of arguments, answers and values"])
p("C34","Calls, answers and errors work across processes",
"A program can spread its calls over several processes. Every public function can be pickled (by every protocol) and named in another process, also as part of a functools.partial; asked there, by fork or in a process started afresh, it gives bit for bit the answer it gives here under the backend that process uses, and what is refused here is refused there with an error of the same class and text (for a naive datetime with the same argname and dt), which arrives in the process that asked. Answers (but for the generators of simulate and the functions in get_aberration_coeffs) and errors can be copied, deep-copied and pickled, and the copies equal the originals, classes included. Each process has a backend of its own: one made by fork begins with its parent's, a fresh one with the default, and choosing a backend in one process changes no other.",
["histories","inputs"],"every history of processes made, backends chosen and questions sent, for every function and every way of copying","no test copies an answer or an error, and none uses a second process",
[S,T,U,R,E,N,M,Q,Z],[("errors that can be rebuilt from their arguments","pysolar/tzinfo_check.py"),("the backend, a state of the process","pysolar/numeric.py"),("public functions","pysolar/*.py")],["answers and errors received from other processes, and copies of them"],
[("procs","the backend of each process","pysolar/numeric.py")])
p("C35","The package publishes the constants, tables and series of its sources",
"The values a caller may read are those of the standards the documentation names: in constants the Earth's radius, axis and gravity, the standard atmosphere (pressure, temperature, lapse rate, gas constant, molar mass), the offset of the Celsius scale and the periodic terms of NREL/TP-560-34302 (heliocentric series, nutation arguments and coefficients); in util the defaults of the clear-sky model; in solartime the leap seconds and the monthly delta T. They are the same under both backends and after any use of the package. solar.get_coeff evaluates, for any table of terms (a, b, c) in groups of increasing powers and any millennium x, the sum over the groups k of x**k times the sum of a*cos(b + c*x), to rounding, without changing the table. constants.get_aberration_coeffs gives the five polynomials of the Moon's and the Sun's arguments under their names, for any century.",
["inputs"],"every published value and every entry of the tables; every table, millennium and century","the tests read none of the constants, and use get_coeff through the published tables only",
[S,T,U,K],[("constants and tables","pysolar/constants.py"),("evaluation of the series","pysolar/solar.py:get_coeff"),("leap seconds and delta T","pysolar/solartime.py"),("defaults","pysolar/util.py")],["module values, results of get_coeff and of the polynomials"])
p("C36","The package can be imported piece by piece, in any order, at any time",
"Every module of the package can be the first one imported, and the others imported later or not at all, in every form (import pysolar.x, from pysolar import x, from pysolar.x import *, relative, importlib), between whatever calls and switches of the backend, with numpy or without it; no import fails. Importing a module, or importing it again with importlib.reload (any but numeric, which starts afresh), changes neither the backend in force nor any answer. A module imported late answers, under each backend and after every later switch, bit for bit as if it had been there from the start, and from pysolar.x import * brings all its public functions.",
["histories"],"every order of imports, reloads, switches and calls","the tests import everything at the start, in one order and form",
["pysolar/__init__.py",S,T,U,R,E,N,M,Q,Z],[("modules free of effects on each other when they are imported","pysolar/*.py")],["results of imports, answers afterwards, numeric.current_mod"],
[("mode","the backend in force","pysolar/numeric.py")])
p("C37","Answers do not depend on how and where the interpreter is started",
"The package can be imported and answers, or refuses, every call bit for bit the same under both backends however the interpreter was started: optimised (-O, -OO, without docstrings), with warnings as errors (the import gives none) or all shown, isolated (-I, -E, -P), in development mode, with whatever environment (none, the C locale, any TZ and hash seed), with the standard streams open or closed, in any working directory, also one that has been removed. It may be installed as a directory, reached by a symbolic link or through a path with spaces and letters of any alphabet, imported from a zip archive, or shipped as compiled files without the sources. The numpy backend is in force at the start wherever numpy can be imported.",
["configurations"],"every combination of options, environment, streams, working directory and form of installation","the tests run in one interpreter, started one way, from the source directory",
["pysolar/__init__.py",S,T,U,R,E,N,M,Q,Z],[("modules that depend on nothing but each other, the standard library and numpy","pysolar/*.py")],["results of imports, answers and errors of interpreters started otherwise"],
[("procs","the backend of each process","pysolar/numeric.py")])
P[1]["statement"]=P[1]["statement"].replace("(March 2014? the last tabulated month)","(LASTMONTH)")
import sys,re
sys.path.insert(0,'/repo')
from pysolar import solartime as st
n=len(st.delta_t); ly=st.delta_t_base_year+n-1; lm=len(st.delta_t[-1])
import calendar
P[1]["statement"]=P[1]["statement"].replace("LASTMONTH",calendar.month_name[lm]+" "+str(ly)); print(ly,lm,st.delta_t[-1])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(re.findall(r'[.!?](?= [A-Z(]|$)',x['statement']))<=4,(x['id'],x['statement'])
