"""Edits that keep the behaviour, applied together to a scratch copy of /repo: the tests have to pass and every check has to stay quiet.
refactors.py [SET ...] [--seed N] [--checks C01,C02]"""
import sys, os, subprocess, shutil, tempfile
SETS = {}
ST, SO, UT, NU, RA, EL, SI, RE, CO, TZ = ["pysolar/%s.py" % n for n in "solartime solar util numeric radiation elevation simulate rest constants tzinfo_check".split()]

SETS["a"] = [
 (SO, """    for i in range(len(abcd)):
        sigmaxy = 0.0
        for j in range(len(x)):
            sigmaxy += x[j] * y[i][j]
        #end for
        nutation_long.append((abcd[i][0] + (abcd[i][1] * jce)) * math.sin(math.radians(sigmaxy)))
        nutation_oblique.append((abcd[i][2] + (abcd[i][3] * jce)) * math.cos(math.radians(sigmaxy)))
""", """    for (a, b, c, d), terms in reversed(list(zip(abcd, y))):
        sigma = math.radians(sum(u * v for u, v in zip(x, terms)))
        nutation_long.append((a + b * jce) * math.sin(sigma))
        nutation_oblique.append((c + d * jce) * math.cos(sigma))
"""),
 (SO, """    result = 0.0
    x = 1.0
    for line in coeffs :
        c = 0.0
        for l in line :
            c += l[0] * math.cos(l[1] + l[2] * jme)
        #end for
        result += c * x
        x *= jme
    #end for
    return \\
        result
""", """    result = 0.0
    for line in reversed(coeffs) :
        result = result * jme + _series(line, jme)
    #end for
    return result
"""),
 (SO, "def get_declination(day):", """def _series(line, jme):
    return sum(a * math.cos(b + c * jme) for a, b, c in line)

def get_declination(day):"""),
 (SO, """    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)

    topocentric_elevation_angle = get_topocentric_elevation_angle(latitude_deg, topocentric_sun_declination, topocentric_local_hour_angle)
    refraction_correction = get_refraction_correction(pressure, temperature, topocentric_elevation_angle)
    return topocentric_elevation_angle + refraction_correction
""", """    return get_position(latitude_deg, longitude_deg, when, elevation, temperature, pressure)[1]
"""),
 (CO, "def get_aberration_coeffs():", "def get_aberration_coeffs():\n    with _lock: return _get_aberration_coeffs()\n\ndef _get_aberration_coeffs():"),
 (CO, "aberration_coeffs = None\n", "import threading\naberration_coeffs = None\n_lock = threading.Lock()\n"),
 (SI, """    step = step_minutes * 60
    span = end_datetime - start_datetime
    dt = datetime.timedelta(seconds = step)
    for n in range(span // dt) :
        yield start_datetime + dt * n
    #end for
""", """    dt = datetime.timedelta(minutes = step_minutes)
    remaining = (end_datetime - start_datetime) // dt
    time = start_datetime
    while remaining > 0 :
        yield time
        time += dt
        remaining -= 1
    #end while
"""),
 (SI, """        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
""", """        azi, alt = solar.get_position(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
"""),
 (RA, """    return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
""", """    beam = math.exp(-(optical_depth * air_mass_ratio))
    return is_daytime * (beam * flux)
"""),
 (ST, """    when = when.utctimetuple()
    adj = 10 # as decreed from 1972
    year = leap_seconds_base_year
    while True :
        if year > when.tm_year :
            break
        if year - leap_seconds_base_year >= len(leap_seconds_adjustments) :
            if (
                    when.tm_year - leap_seconds_base_year > len(leap_seconds_adjustments)
                or
                        when.tm_year - leap_seconds_base_year == len(leap_seconds_adjustments)
                    and
                        when.tm_mon > 6
            ) :
                warnings.warn \\
                  (
                        "Leap seconds for year %d are not available for the installed version of pysolar"
                    %
                        (leap_seconds_base_year + len(leap_seconds_adjustments) - 1)
                  )
            #end if
            break
        #end if
        entry = leap_seconds_adjustments[year - leap_seconds_base_year]
        if year == when.tm_year :
            if when.tm_mon > 6 :
                adj += entry[0]
            #end if
            break
        #end if
        adj += entry[0] + entry[1]
        year += 1
    #end while
    return \\
        adj
""", """    utc = when.astimezone(datetime.timezone.utc) if when.utcoffset() is not None else when
    halves = 2 * (utc.year - leap_seconds_base_year) + (utc.month > 6)
    flat = [x for entry in leap_seconds_adjustments for x in entry]
    if halves > len(flat) :
        warnings.warn \\
          (
                "Leap seconds for year %d are not available for the installed version of pysolar"
            %
                (leap_seconds_base_year + len(leap_seconds_adjustments) - 1)
          )
    #end if
    return 10 + sum(flat[:max(0, halves)])
"""),
 (UT, "    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)", "    angle = (_utc_day(when) - 94) * (2 * math.pi / 365)\n    return 1 - 0.0335 * math.sin(angle)\n\n\ndef _utc_day(when):\n    return when.utctimetuple().tm_yday"),
 (UT, "    day = when.utctimetuple().tm_yday\n    ab = math.cos(2 * math.pi * (day - 1.0)/(365.0))", "    day = _utc_day(when)\n    ab = math.cos(2 * math.pi * (day - 1.0)/(365.0))"),
 (RE, "    return E0n[band] * TR * Tg * To * Tn * Tw * Ta", "    transmittance = TR * Tg\n    for t in (Tn, To, Ta, Tw):\n        transmittance *= t\n    return transmittance * E0n[band]"),
 (EL, "        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))", "        Ps * (1 + Tl * (h - Hb) / Ts) ** (-(g * M) / (R * Tl))"),
]

SETS["b"] = [
 (ST, "import warnings\n", "import warnings\nimport functools\n"),
 (ST, "@check_aware_dt('when')\ndef get_delta_t(when) :", """@functools.lru_cache(maxsize = None)
def _delta_t_entry(year, month) :
    last = delta_t_base_year * 12 + delta_t_base_month - 1 + sum(len(r) for r in delta_t) - 1
    index = min(max(year * 12 + month - 1, delta_t_base_year * 12 + delta_t_base_month - 1), last)
    y, m = index // 12 - delta_t_base_year, index % 12
    if y == 0 :
        m -= delta_t_base_month - 1
    #end if
    return delta_t[y][m]

@check_aware_dt('when')
def get_delta_t(when) :"""),
 (ST, """    year, month = when.tm_year, when.tm_mon
    if year < delta_t_base_year :
        year = delta_t_base_year
        month = 1
    elif year == delta_t_base_year :
        month = max(0, month - delta_t_base_month) + 1
    elif year >= delta_t_base_year + len(delta_t) :
        year = delta_t_base_year + len(delta_t) - 1
        month = 12
    #end if
    if year == delta_t_base_year + len(delta_t) - 1 :
        month = min(month, len(delta_t[year - delta_t_base_year]))
    #end if
    return \\
        delta_t[year - delta_t_base_year][month - 1]
""", """    return _delta_t_entry(when.tm_year, when.tm_mon)
"""),
 (ST, """                (when.timestamp() + get_leap_seconds(when) + tt_offset)
            /
                seconds_per_day
        +
            gregorian_day_offset
        +
            julian_day_offset
        )
""", """                _timestamp(when, get_leap_seconds(when) + tt_offset)
            /
                seconds_per_day
        +
            (gregorian_day_offset + julian_day_offset)
        )
"""),
 (ST, """def get_julian_century(julian_day):""", """def _timestamp(when, more):
    since = when - datetime.datetime(1970, 1, 1, tzinfo = datetime.timezone.utc)
    return since.days * seconds_per_day + since.seconds + more + since.microseconds / 1e6

def get_julian_century(julian_day):"""),
 (SO, "import math\n", "import math\n") if False else (SO, "def get_nutation(jce):\n", "@functools.lru_cache(maxsize = 128)\ndef _nutation(jce, backend = None):\n"),
 (SO, "    return nutation\n#end get_nutation", "    return nutation\n#end get_nutation\n\ndef get_nutation(jce):\n    if isinstance(jce, (int, float)):\n        return dict(_nutation(float(jce), math.current_mod))\n    return _nutation.__wrapped__(jce)\n"),
 (SO, "def get_declination(day):", "def get_declination(day):") if False else (SO, "from . import numeric as math\n", "import functools\nfrom . import numeric as math\n"),
 (SO, """    a = math.sin(tlha_rad)
    b = math.cos(tlha_rad) * math.sin(latitude_rad) - math.tan(tsd_rad) * math.cos(latitude_rad)
    return (180.0 + math.degrees(math.atan2(a, b))) % 360
""", """    east, north = _horizontal(tlha_rad, latitude_rad, tsd_rad)
    return (180.0 + math.degrees(math.atan2(east, north))) % 360

def _horizontal(hour, lat, decl):
    return math.sin(hour), math.sin(lat) * math.cos(hour) - math.cos(lat) * math.tan(decl)
"""),
 (SO, """    visible = topocentric_elevation_angle >= -1.0*(sun_radius + atmos_refract)
""", """    lowest = -(sun_radius + atmos_refract)
    visible = topocentric_elevation_angle >= lowest
"""),
 (SO, """    a = pressure * 2.830 * 1.02
    b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))

    del_e = math.where(visible, a / b, 0.)

    return del_e
""", """    scale = (pressure / 1010.0) * (2.830 / temperature) * 1.02 / 60.0
    return math.where(visible, scale / math.tan(math.radians(tea + 10.3/(tea + 5.11))), 0.)
"""),
 (NU, """    globals_import_from('math', 'degrees', 'degrees')
    globals_import_from('math', 'cos', 'cos')
    globals_import_from('math', 'sin', 'sin')
    globals_import_from('math', 'radians', 'radians')
    globals_import_from('math', 'tan', 'tan')
    globals_import_from('math', 'pi', 'pi')
    globals_import_from('math', 'acos', 'acos')
    globals_import_from('math', 'atan', 'atan')
    globals_import_from('math', 'asin', 'asin')
    globals_import_from('math', 'atan2', 'atan2')
    globals_import_from('math', 'exp', 'exp')
    globals_import_from('math', 'log', 'log')
    globals_import_from('math', 'e', 'e')
""", """    for name in 'degrees cos sin radians tan pi acos atan asin atan2 exp log e'.split():
        globals_import_from('math', name, name)
"""),
 (TZ, """      for argname in argnames:
        # first checking if argname is a valid arg name
        full = inspect.getfullargspec(inspect.unwrap(func))
        if (argname in full.args or
            argname in full.kwonlyargs):
          # getting value given for argname
          try:
            dt = args[full.args.index(argname)]
          except (IndexError, ValueError):
            if argname not in kwargs:
              continue    # missing: leave it to the call below to say so
            dt = kwargs[argname]
""", """      given = dict(zip(positional, args))
      given.update(kwargs)
      for argname in argnames:
        if argname in given:
          dt = given[argname]
"""),
 (TZ, """    @wraps(func)
    def func_with_check(*args, **kwargs):
""", """    positional = inspect.getfullargspec(inspect.unwrap(func)).args
    @wraps(func)
    def func_with_check(*args, **kwargs):
"""),
 (UT, "@check_aware_dt('when')\ndef extraterrestrial_irrad", "def _course(day):\n    x = 2 * math.pi * (day - 1.0) / 365.0\n    return math.cos(x), math.sin(x), math.cos(2 * x), math.sin(2 * x)\n\n@check_aware_dt('when')\ndef extraterrestrial_irrad"),
 (UT, """    ab = math.cos(2 * math.pi * (day - 1.0)/(365.0))
    bc = math.sin(2 * math.pi * (day - 1.0)/(365.0))
    cd = math.cos(2 * (2 * math.pi * (day - 1.0)/(365.0)))
    df = math.sin(2 * (2 * math.pi * (day - 1.0)/(365.0)))
""", """    ab, bc, cd, df = _course(day)
"""),
 ("util/get_delta_t", """entries = parse_data(data)
""", """entries = iter(list(parse_data(data)))
"""),
 (RE, """    if band == "high-frequency":
        return (1 + 1.8169 * mRprime + 0.033454 * mRprime ** 2) / (1 + 2.063 * mRprime + 0.31978 * mRprime ** 2)
    else:
        return (1 - 0.010394 * mRprime) / (1 - 0.00011042 * mRprime ** 2)
""", """    high = band == "high-frequency"
    over = (1 + mRprime * (1.8169 + mRprime * 0.033454)) if high else 1 - 0.010394 * mRprime
    under = (1 + mRprime * (2.063 + mRprime * 0.31978)) if high else 1 - 0.00011042 * mRprime * mRprime
    return over / under
"""),
]
SETS["c"] = [
 (CO, "def get_aberration_coeffs():\n", "def _table():\n"),
 (CO, "    global aberration_coeffs\n    if aberration_coeffs == None :\n        aberration_coeffs = dict \\\n", "    return dict \\\n"),
 (CO, "          )\n    #end if\n    return \\\n        aberration_coeffs\n#end get_aberration_coeffs", "          )\n#end _table\n\naberration_coeffs = _table()\n\ndef get_aberration_coeffs():\n    return aberration_coeffs"),
 (SO, """    jd = stime.get_julian_solar_day(when)
    jde = stime.get_julian_ephemeris_day(when)
    jce = stime.get_julian_ephemeris_century(jde)
    jme = stime.get_julian_ephemeris_millennium(jce)
""", """    jde = stime.get_julian_ephemeris_day(when)
    jd = stime.get_julian_solar_day(when)
    jce = stime.get_julian_ephemeris_century(jde)
    jme = stime.get_julian_ephemeris_millennium(jce)
    assert jd is not None
"""),
 (SO, "    return math.degrees(math.acos(clamp_cosine(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad))))",
      "    facing = math.cos(so_rad + math.pi - taa_rad)\n    cosine = math.sin(tza_rad) * math.sin(slope_rad) * facing + math.cos(slope_rad) * math.cos(tza_rad)\n    return math.degrees(math.acos(clamp_cosine(cosine)))"),
 (SO, """    a = math.sin(geocentric_latitude_rad) * math.cos(true_ecliptic_obliquity_rad)
    b = math.cos(geocentric_latitude_rad) * math.sin(true_ecliptic_obliquity_rad) * math.sin(apparent_sun_longitude_rad)
    delta = math.asin(a + b)
    return math.degrees(delta)
""", """    lam, eps, beta = apparent_sun_longitude_rad, true_ecliptic_obliquity_rad, geocentric_latitude_rad
    return math.degrees(math.asin(math.cos(eps) * math.sin(beta) + math.sin(lam) * math.sin(eps) * math.cos(beta)))
"""),
 (SO, """    mean_obliquity = 84381.448 - (4680.93 * u) - (1.55 * u ** 2) + (1999.25 * u ** 3) \\
    - (51.38 * u ** 4) -(249.67 * u ** 5) - (39.05 * u ** 6) + (7.12 * u ** 7) \\
    + (27.87 * u ** 8) + (5.79 * u ** 9) + (2.45 * u ** 10)
""", """    mean_obliquity = 0.0
    for c in (2.45, 5.79, 27.87, 7.12, -39.05, -249.67, -51.38, 1999.25, -1.55, -4680.93, 84381.448):
        mean_obliquity = mean_obliquity * u + c
"""),
 (SO, "    jc = stime.get_julian_century(jd)\n    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc - jc * jc * jc / 38710000\n",
      "    jc = stime.get_julian_century(jd)\n    days = jd - 2451545.0\n    sidereal_time = 280.46061837 + 360.98564736629 * days + jc ** 2 * (0.000387933 - jc / 38710000)\n"),
 (SI, "        shade = horizon[round(azi) % len(horizon)]\n        if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :\n            rad = 0\n        else :\n            rad = radiation.get_radiation_direct(time, alt)\n        #end if\n        yield time, alt, azi, rad, shade\n",
      "        index = int(round(azi))\n        index -= index // len(horizon) * len(horizon)\n        shade = horizon[index]\n        sun_y = alt_zero - round(alt_zero * math.sin(math.radians(alt)))\n        rad = radiation.get_radiation_direct(time, alt) if shade >= sun_y else 0\n        yield (time, alt, azi, rad, shade)\n"),
 (ST, "    when = when.utctimetuple()\n    year, month = when.tm_year, when.tm_mon\n", "    utc = when.utctimetuple()\n    year, month = utc.tm_year, utc.tm_mon\n"),
 (UT, "    SHA = (utc_offset / 3600 * 15.0 - longitude_deg + 180) % 360 - 180 ", "    meridian = utc_offset / 240.0\n    SHA = (meridian - longitude_deg + 180) % 360 - 180 "),
 (UT, """            0.322003
        -
            22.971 * math.cos(TT)
        -
            0.357898 * math.cos(2 * TT)
        -
            0.14398 * math.cos(3 * TT)
        +
            3.94638 * math.sin(TT)
        +
            0.019334 * math.sin(2 * TT)
        +
            0.05928 * math.sin(3 * TT)
""", """            0.322003
        +
            sum
              (
                b * math.sin(k * TT) - a * math.cos(k * TT)
                for k, a, b in ((3, 0.14398, 0.05928), (2, 0.357898, 0.019334), (1, 22.971, 3.94638))
              )
"""),
 (NU, "    dd = numpy.array(d, dtype='datetime64[D]')\n    dy = numpy.array(d, dtype='datetime64[Y]')\n    return (dd - dy).astype('int') + 1", "    days = numpy.asarray(d, dtype='datetime64[D]')\n    return (days - days.astype('datetime64[Y]')).astype('int') + 1"),
 (RE, """def get_optical_mass_ozone(altitude_deg):""", """def _mass(Z, a, b, c, d):
    return 1 / (math.cos(math.radians(Z)) + a * Z ** b / (c - Z) ** d)


def get_optical_mass_ozone(altitude_deg):"""),
 (RE, "    return 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)", "    return _mass(Z, 1.0651, 0.6379, 101.8, 2.2694)"),
 (RE, "    return 1 / (math.cos(Z_rad) + 0.16851 * Z ** 0.18198 / (95.318 - Z) ** 1.9542)", "    return _mass(Z, 0.16851, 0.18198, 95.318, 1.9542)"),
 (EL, "    if h > 11000.0 :\n", "    limit = 11000.0\n    if limit < h :\n"),
 (RA, """    try :
        result = 1 / math.sin(math.radians(altitude_deg))
    except ZeroDivisionError :
        result = float("inf")
    #end try
    return result
""", """    sine = math.sin(math.radians(altitude_deg))
    try :
        return 1 / sine
    except ZeroDivisionError :
        return float("inf")
    #end try
"""),
]

SETS["d"] = [
 (SO, """    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)

    azimuth = get_topocentric_azimuth_angle(topocentric_local_hour_angle,
            latitude_deg, topocentric_sun_declination)

    return azimuth
""", """    azimuth, _ = get_position(latitude_deg, longitude_deg, when, elevation = elevation)
    return azimuth
"""),
 (SO, """    d = datetime.datetime.now(tz=datetime.timezone.utc)
    thirty_minutes = datetime.timedelta(hours = 0.5)
    for _ in range(48):
        timestamp = d.ctime()
        altitude_deg = get_altitude(latitude_deg, longitude_deg, d)
        azimuth_deg = get_azimuth(latitude_deg, longitude_deg, d)
        power = radiation.get_radiation_direct(d, altitude_deg)
        if (altitude_deg > 0):
            print(timestamp, "UTC", altitude_deg, azimuth_deg, power)
        d = d + thirty_minutes
""", """    now = datetime.datetime.now(tz=datetime.timezone.utc)
    for k in range(48):
        d = now + k * datetime.timedelta(minutes = 30)
        azimuth_deg, altitude_deg = get_position(latitude_deg, longitude_deg, d)
        if not altitude_deg > 0:
            continue
        print("%s UTC" % d.ctime(), altitude_deg, azimuth_deg, radiation.get_radiation_direct(d, altitude_deg))
"""),
 (SO, """    nutation_long = []
    nutation_oblique = []
    p = constants.get_aberration_coeffs()
    x = list \\
      (
        p[k](jce)
""", """    nutation_long = []
    nutation_oblique = []
    polynomials = constants.get_aberration_coeffs()
    x = tuple \\
      (
        polynomials[k](jce)
"""),
 (SO, """    first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
    second_term = math.sin(latitude_rad) * math.sin(declination_rad)
    return math.degrees(math.asin(clamp_cosine(first_term + second_term)))
""", """    terms = (
        math.sin(latitude_rad) * math.sin(declination_rad),
        math.cos(latitude_rad) * math.cos(math.radians(hour_angle)) * math.cos(declination_rad),
    )
    return math.degrees(math.asin(clamp_cosine(sum(terms))))
"""),
 (SO, "    return math.where(x > 1.0, 1.0, math.where(x < -1.0, -1.0, x))", "    low = math.where(x < -1.0, -1.0, x)\n    return math.where(low > 1.0, 1.0, low)"),
 (SO, "    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)", "    s, c = math.sin(b), math.cos(b)\n    return 2 * 9.87 * s * c - 7.53 * c - 1.5 * s"),
 (SO, "    return (get_heliocentric_longitude(jme) + 180) % 360", "    return (180 + math.degrees(get_coeff(jme, constants.heliocentric_longitude_coeffs) / 1e8)) % 360"),
 (SO, "    return 15.0 * (solar_time - 12.0)", "    return solar_time * 15.0 - 180.0"),
 (CO, """    global aberration_coeffs
    if aberration_coeffs == None :
        aberration_coeffs = dict \\
""", """    global aberration_coeffs
    table = aberration_coeffs
    if table is None :
        aberration_coeffs = table = dict \\
"""),
 (CO, "    return \\\n        aberration_coeffs\n", "    return table\n"),
 (ST, """    adj = 10 # as decreed from 1972
    year = leap_seconds_base_year
    while True :
        if year > when.tm_year :
            break
""", """    adj = 10 # as decreed from 1972
    year = leap_seconds_base_year
    while year <= when.tm_year :
"""),
 (ST, "    return \\\n        (\n                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))\n            /\n                seconds_per_day\n        +\n            gregorian_day_offset\n        +\n            julian_day_offset\n        )\n#end get_julian_solar_day",
      "    delta_t = get_delta_t(when)\n    ut1 = when.timestamp() + (get_leap_seconds(when) + tt_offset - delta_t)\n    return julian_day_offset + gregorian_day_offset + ut1 / seconds_per_day\n#end get_julian_solar_day"),
 (UT, """    ha = \\
        (
            math.acos(
                math.cos(math.radians(90.833))
            /
                (
                    math.cos(math.radians(latitude_deg))
                *
                    math.cos(math.radians(decl))
                )
            -
                math.tan(math.radians(latitude_deg))
            *
                math.tan(math.radians(decl))
            )
        *
            (12 / math.pi)
        )
""", """    phi, delta = math.radians(latitude_deg), math.radians(decl)
    cos_ha = math.cos(math.radians(90.833)) / (math.cos(phi) * math.cos(delta)) - math.tan(phi) * math.tan(delta)
    if not -1 <= cos_ha <= 1 :
        raise ValueError("no sunrise or sunset at this latitude on this day")
    #end if
    ha = math.acos(cos_ha) * (12 / math.pi)
"""),
 (UT, """    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))
    # convert back afterwards, in case utcoffset changes in the course of the day
    sunrise_time = (same_day + timedelta(hours = TON - ha)).astimezone(when.tzinfo)
    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)
    transit_time = (same_day + timedelta(hours = TON)).astimezone(when.tzinfo)
    return sunrise_time, sunset_time, transit_time
""", """    midnight = when.replace(hour = 0, minute = 0, second = 0, microsecond = 0, fold = 0, tzinfo = timezone(timedelta(seconds = utc_offset)))
    return tuple((midnight + timedelta(hours = h)).astimezone(when.tzinfo) for h in (TON - ha, TON + ha, TON))
"""),
 (UT, "        get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[0:2]", "        (get_sunrise_time(latitude_deg, longitude_deg, when), get_sunset_time(latitude_deg, longitude_deg, when))"),
 (UT, "    return SC * ZA * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df) if ZA > 0 else 0.0", "    if not ZA > 0 :\n        return 0.0\n    eccentricity = sum((1.00010, 0.034221 * ab, 0.001280 * bc, 0.000719 * cd, 0.000077 * df))\n    return ZA * SC * eccentricity"),
 (NU, """def tm_hour_numpy(d):
    d = utc_naive(d)
    dh = numpy.array(d, dtype='datetime64[h]')
    dd = numpy.array(d, dtype='datetime64[D]')
    return (dh - dd).astype('int')
""", """def _field_numpy(d, unit, of):
    d = utc_naive(d)
    return (numpy.array(d, dtype='datetime64[%s]' % unit) - numpy.array(d, dtype='datetime64[%s]' % of)).astype('int')


def tm_hour_numpy(d):
    return _field_numpy(d, 'h', 'D')
"""),
 (NU, """    d = utc_naive(d)
    dm = numpy.array(d, dtype='datetime64[m]')
    dh = numpy.array(d, dtype='datetime64[h]')
    return (dm - dh).astype('int')
""", """    return _field_numpy(d, 'm', 'h')
"""),
 (TZ, """          if not hasattr(dt, 'shape'):   # don't raise Exception if dt is an array (assumed of datetime64)
            if not hasattr(dt, 'utctimetuple'): # neither a date nor a time of day has it
              raise ValueError(
                "Expected a 'datetime.datetime' object \\
    for arg '%s', got %s instead" % (argname, dt))
            if dt.utcoffset() is None: # no tzinfo, or one without an offset: naive either way
              raise NoTimeZoneInfoError(argname, dt)
""", """          demand_aware(argname, dt)
"""),
 (TZ, "def check_aware_dt(*argnames):", """def demand_aware(argname, dt):
  if hasattr(dt, 'shape'):
    return
  if not hasattr(dt, 'utctimetuple'):
    raise ValueError("%s: %r is no datetime" % (argname, dt))
  if dt.utcoffset() is None:
    raise NoTimeZoneInfoError(argname, dt)


def check_aware_dt(*argnames):"""),
 (SI, """    alt_zero = 380
    for time in""", """    alt_zero = 380
    def direct(time, azi, alt):
        shade = horizon[round(azi) % len(horizon)]
        visible = shade >= alt_zero - round(alt_zero * math.sin(math.radians(alt)))
        return (radiation.get_radiation_direct(time, alt) if visible else 0), shade
    for time in"""),
 (SI, """        shade = horizon[round(azi) % len(horizon)]
        if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :
            rad = 0
        else :
            rad = radiation.get_radiation_direct(time, alt)
        #end if
        yield""", """        rad, shade = direct(time, azi, alt)
        yield"""),
 (RA, "    is_daytime = (altitude_deg > 0)\n    day = math.tm_yday(when)\n", "    day = math.tm_yday(when)\n    is_daytime = (0 < altitude_deg)\n"),
 (EL, "    h = 0\n    for _ in range(11):\n", "    for h in range(0, 11000, 1000):\n"),
 (EL, "        h += 1000\n", ""),
 (RE, "    high = get_direct_normal_irradiance_by_band(\"high-frequency\", altitude_deg, pressure_millibars,\n                                           ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)\n    low = get_direct_normal_irradiance_by_band(\"low-frequency\", altitude_deg, pressure_millibars,\n                                          ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)\n    return high + low",
      "    arguments = altitude_deg, pressure_millibars, ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta\n    return sum(get_direct_normal_irradiance_by_band(band, *arguments) for band in E0n)"),
 (RE, "    Z = 90 - altitude_deg\n    Ebni = get_direct", "    Ebni = get_direct"),
 (RE, "    return Ebni * math.cos(math.radians(Z))", "    return math.sin(math.radians(altitude_deg)) * Ebni"),
]

SETS["e"] = [
 ("pysolar/geometry.py", "", "\"\"\"Spherical geometry used by the solar module.\"\"\"\nfrom . import numeric as math\n\n\ndef horizon_to_equator(latitude_deg, declination, hour_angle):\n    lat, dec, hour = math.radians(latitude_deg), math.radians(declination), math.radians(hour_angle)\n    return math.sin(lat) * math.sin(dec) + math.cos(lat) * math.cos(dec) * math.cos(hour)\n"),
 (SO, "from . import radiation\n", "from . import radiation\nfrom .geometry import horizon_to_equator\n"),
 (SO, """    first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
    second_term = math.sin(latitude_rad) * math.sin(declination_rad)
    return math.degrees(math.asin(clamp_cosine(first_term + second_term)))
""", """    return math.degrees(math.asin(clamp_cosine(horizon_to_equator(latitude_deg, get_declination(day), hour_angle))))
"""),
 (SO, """    jd = stime.get_julian_solar_day(when)
    jde = stime.get_julian_ephemeris_day(when)
    jce = stime.get_julian_ephemeris_century(jde)
    jme = stime.get_julian_ephemeris_millennium(jce)
""", """    jd, jce, jme = julian_arguments(when)
"""),
 (SO, "def clamp_cosine(x):", """def julian_arguments(when):
    "the solar day, and the centuries and millennia of ephemeris time"
    jce = stime.get_julian_ephemeris_century(stime.get_julian_ephemeris_day(when))
    return stime.get_julian_solar_day(when), jce, stime.get_julian_ephemeris_millennium(jce)


def clamp_cosine(x):"""),
 (SO, """    topocentric_elevation_angle = \\
        get_topocentric_elevation_angle(latitude_deg, topocentric_sun_declination,
                                        topocentric_local_hour_angle)

    refraction_correction = get_refraction_correction(pressure, temperature,
                                                      topocentric_elevation_angle)

    altitude_deg = topocentric_elevation_angle + refraction_correction

    azimuth_deg = get_topocentric_azimuth_angle(topocentric_local_hour_angle,
                                      latitude_deg, topocentric_sun_declination)

    return azimuth_deg, altitude_deg
""", """    azimuth_deg = get_topocentric_azimuth_angle(topocentric_local_hour_angle, latitude_deg, topocentric_sun_declination)
    airless = get_topocentric_elevation_angle(latitude_deg, topocentric_sun_declination, topocentric_local_hour_angle)
    return azimuth_deg, airless + get_refraction_correction(pressure, temperature, airless)
"""),
 (SO, "    for i in range(len(abcd)):\n", "    for i, _ in enumerate(abcd):\n"),
 (SI, """    for n in range(span // dt) :
        yield start_datetime + dt * n
    #end for
#end datetime_range""", """    return (start_datetime + dt * n for n in range(span // dt))
#end datetime_range"""),
 (SI, "    alt_zero = 380\n", "    alt_zero = 380 # pixels from the zenith to the horizon\n    place = dict(latitude_deg = latitude_deg, longitude_deg = longitude_deg, elevation = elevation)\n"),
 (SI, """        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
""", """        alt = solar.get_altitude(when = time, temperature = temperature, pressure = pressure, **place)
        azi = solar.get_azimuth(when = time, **place)
"""),
 (NU, """    globals_import_from('numpy', 'degrees', 'degrees')
    globals_import_from('numpy', 'cos', 'cos')
    globals_import_from('numpy', 'sin', 'sin')
    globals_import_from('numpy', 'radians', 'radians')
    globals_import_from('numpy', 'tan', 'tan')
    globals_import_from('numpy', 'pi', 'pi')
    globals_import_from('numpy', 'arccos', 'acos')
    globals_import_from('numpy', 'arctan', 'atan')
    globals_import_from('numpy', 'arcsin', 'asin')
    globals_import_from('numpy', 'arctan2', 'atan2')
    globals_import_from('numpy', 'exp', 'exp')
    globals_import_from('numpy', 'log', 'log')
    globals_import_from('numpy', 'e', 'e')
    globals_import_from('numpy', 'where', 'where')
    globals()['tm_yday'] = tm_yday_numpy
    globals()['tm_hour'] = tm_hour_numpy
    globals()['tm_min'] = tm_min_numpy
    globals()['current_mod'] = 'numpy'
""", """    global tm_yday, tm_hour, tm_min, current_mod
    for name in ALIKE + ('where',):
        globals_import_from('numpy', name, name)
    for name in INVERSE:
        globals_import_from('numpy', 'arc' + name[1:], name)
    tm_yday, tm_hour, tm_min = tm_yday_numpy, tm_hour_numpy, tm_min_numpy
    current_mod = 'numpy'
"""),
 (NU, "current_mod = 'math'\n", "current_mod = 'math'\nALIKE = 'degrees', 'cos', 'sin', 'radians', 'tan', 'pi', 'exp', 'log', 'e'\nINVERSE = 'acos', 'atan', 'asin', 'atan2'\n"),
 (TZ, "def check_aware_dt(*argnames):", """class AwareCheck:
  "looks up the argument names of a function among those given, and demands a time zone of them"
  def __init__(self, func, argnames):
    spec = inspect.getfullargspec(inspect.unwrap(func))
    self.positions = {name: spec.args.index(name) if name in spec.args else None
                      for name in argnames if name in spec.args or name in spec.kwonlyargs}

  def __call__(self, args, kwargs):
    for name, k in self.positions.items():
      if k is not None and k < len(args):
        self.demand(name, args[k])
      elif name in kwargs:
        self.demand(name, kwargs[name])

  def demand(self, name, dt):
    if hasattr(dt, 'shape'):
      return
    if not hasattr(dt, 'utctimetuple'):
      raise ValueError("Expected a 'datetime.datetime' object for arg '%s', got %s instead" % (name, dt))
    if dt.utcoffset() is None:
      raise NoTimeZoneInfoError(name, dt)


def check_aware_dt(*argnames):"""),
 (TZ, """      for argname in argnames:
        # first checking if argname is a valid arg name
        full = inspect.getfullargspec(inspect.unwrap(func))
        if (argname in full.args or
            argname in full.kwonlyargs):
          # getting value given for argname
          try:
            dt = args[full.args.index(argname)]
          except (IndexError, ValueError):
            if argname not in kwargs:
              continue    # missing: leave it to the call below to say so
            dt = kwargs[argname]
          # checking if dt is timezone-aware
          if not hasattr(dt, 'shape'):   # don't raise Exception if dt is an array (assumed of datetime64)
            if not hasattr(dt, 'utctimetuple'): # neither a date nor a time of day has it
              raise ValueError(
                "Expected a 'datetime.datetime' object \\
    for arg '%s', got %s instead" % (argname, dt))
            if dt.utcoffset() is None: # no tzinfo, or one without an offset: naive either way
              raise NoTimeZoneInfoError(argname, dt)
""", """      check(args, kwargs)
"""),
 (TZ, "    @wraps(func)\n", "    check = AwareCheck(func, argnames)\n    @wraps(func)\n"),
 (RA, """    return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * (day - 100)))""", """    return 0.174 + 0.035 * yearly(day, 100)"""),
 (RA, """    return 1160 + (75 * math.sin(2 * math.pi / 365 * (day - 275)))""", """    return 1160 + 75 * yearly(day, 275)"""),
 (RA, "def get_air_mass_ratio(", "def yearly(day, start):\n    return math.sin((day - start) * math.pi / 182.5)\n\ndef get_air_mass_ratio("),
 (EL, "    return \\\n        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))", "    exponent = g * M / R / Tl\n    base = Ts / (Ts + (h - Hb) * Tl)\n    return base ** exponent * Ps"),
 (UT, "    TON = 12 + SHA / 15.0 - time_adst # Time of noon", "    TON = (180.0 + SHA) / 15.0 - time_adst # Time of noon"),
 (RE, "    return E0n[band] * TR * Tg * To * Tn * Tw * Ta", "    return E0n[band] * (Ta * Tw) * (Tn * To) * (Tg * TR)"),
]

def main():
    args = sys.argv[1:]
    seed, checks = "1", ["C%02d" % k for k in range(1, 40)]
    if "--seed" in args: i = args.index("--seed"); seed = args[i + 1]; del args[i:i + 2]
    if "--checks" in args: i = args.index("--checks"); checks = args[i + 1].split(","); del args[i:i + 2]
    import json
    with open("/verif/MANIFEST.json") as f: claimed = [c["property"] if "property" in c else c["id"] for c in json.load(f)["checks"]]
    for name in args or SETS:
        tmp = tempfile.mkdtemp(prefix="refactor_")
        d = os.path.join(tmp, "repo")
        try:
            shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
            for f, old, new in SETS[name]:
                p = os.path.join(d, f)
                if not old: open(p, "w").close()
                with open(p, newline="") as g: s = g.read()
                crlf = "\r\n" in s
                s = s.replace("\r\n", "\n")
                if s.count(old) < 1: print("NO MATCH", name, f, old[:80]); continue
                s = s.replace(old, new, 1)
                with open(p, "w", newline="") as g: g.write(s.replace("\n", "\r\n") if crlf else s)
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "test"], cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True)
            print("set", name, t.stdout.strip().split("\n")[-1])
            if t.returncode: print(t.stdout[-2500:])
            for c in checks:
                if c not in claimed: continue
                r = subprocess.run(["python3", "harness/check.py", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=seed), capture_output=True, text=True)
                if r.returncode: print(c, r.returncode, r.stdout[-1800:], r.stderr[-800:])
            print("done", name, flush=True)
        finally: shutil.rmtree(tmp)
if __name__ == "__main__": main()
