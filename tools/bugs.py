BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    if isinstance(edits, tuple): edits = [edits]
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
ST, SO, UT, NU, RA, EL, SI, RE, CO, TZ = ["pysolar/%s.py" % n for n in "solartime solar util numeric radiation elevation simulate rest constants tzinfo_check".split()]
HEAD = """
import sys, datetime, warnings
warnings.simplefilter("ignore")
from datetime import datetime as D, timedelta as TD, timezone as Z
import pysolar
from pysolar import solar, solartime, util, radiation, elevation, simulate, rest, constants, numeric
U = Z.utc
def fail(*a): print("FAIL", *a); sys.exit(1)
def near(a, b, tol): return abs(a - b) <= tol
"""

bug("C01-local-date", "C01", (ST, '''    when = when.utctimetuple()
    adj = 10''', '''    when = when.timetuple()
    adj = 10'''), HEAD + """
w = D(2016, 12, 31, 23, 30, tzinfo=U)
if solartime.get_leap_seconds(w) != solartime.get_leap_seconds(w.astimezone(Z(TD(hours=5)))): fail()
""", "a datetime whose local date is across a leap second boundary from its UTC date", "leap seconds of the local instead of the UTC date")

bug("C02-january-1973", "C02", (ST, "        month = max(0, month - delta_t_base_month) + 1", "        month = month - delta_t_base_month + 1"), HEAD + """
if not near(solartime.get_delta_t(D(1973, 1, 15, tzinfo=U)), 43.4724, 1e-6): fail()
""", "January 1973, the month before the table starts, in its first year", "delta T of the end of 1973 instead of the first entry")

bug("C02-typo", "C02", (ST, "            50.1622, # 8", "            50.1662, # 8"), HEAD + """
if not near(solartime.get_delta_t(D(1979, 8, 15, tzinfo=U)), 50.1622, 1e-9): fail()
""", "August 1979", "one entry of the delta T table")


bug("C04-minute-of-zone", "C04", (NU, "    return d.utctimetuple().tm_min", "    return d.minute"), HEAD + """
pysolar.use_math()
w = D(2020, 3, 4, 5, 6, 7, tzinfo=U)
if not near(solar.get_solar_time(10., w), solar.get_solar_time(10., w.astimezone(Z(TD(hours=5, minutes=45)))), 1e-9): fail()
""", "a UTC offset that is not whole hours, and the math backend", "solar time depends on the representation of the instant")

bug("C05-remembered-clock", "C05", [(TZ, '''import inspect

''', '''import inspect

_checked = set()    # wall clocks found aware already; inspecting each call is slow
'''), (TZ, "          if not hasattr(dt, 'shape'):   #", "          if not hasattr(dt, 'shape') and (func.__name__, str(dt)[:19]) not in _checked:   #"), (TZ, '''              raise NoTimeZoneInfoError(argname, dt)''', '''              raise NoTimeZoneInfoError(argname, dt)
            if len(_checked) < 4096:
              _checked.add((func.__name__, str(dt)[:19]))''')], HEAD + """
w = D(2020, 3, 4, 5, 6, 7, tzinfo=U)
util.declination_degree(w)
try: util.declination_degree(w.replace(tzinfo=None))
except ValueError: pass
else: fail()
""", "a naive datetime with the same clock reading as an aware one passed before", "naive datetimes are accepted after an aware one with equal fields")

bug("C06-lost-term", "C06", (CO, '''            (9,1.42,6275.96),
            (9,0.27,5486.78)
''', '''            (9,1.42,6275.96)
'''), HEAD + """
j = [-1.9, -1.3, -.7, .9, 1.7]
t = dict((float(x), y) for x, y in [(-1.9, None)])
# the derivative of the polynomial part: compare with the table summed here
R1 = [(103019.0,1.10749,6283.07585),(1721.0,1.0644,12566.1517),(702.0,3.142,0),(32,1.02,18849.23),(31,2.84,5507.55),(25,1.32,5223.69),(18,1.42,1577.34),(10,5.91,10977.08),(9,1.42,6275.96),(9,0.27,5486.78)]
import math
c = constants.sun_earth_distance_coeffs
for x in j:
    w = sum(sum(a * math.cos(b + k * x) for a, b, k in (R1 if i == 1 else l)) * x ** i for i, l in enumerate(c)) / 1e8
    if not near(w, solar.get_sun_earth_distance(x), 1e-10): fail(x)
""", "instants far enough from 2000 for the last linear term of the distance to count", "the Sun-Earth distance")

bug("C07-cubic-sign", "C07", (CO, "(-0.0001603, -300000.0)" if False else "(357.52772, 35999.050340, -0.0001603, -300000.0)", "(357.52772, 35999.050340, -0.0001603, 300000.0)"), HEAD + """
import math
a = constants.get_aberration_coeffs()['MeanAnomalyOfSun'](40.0)
if not near(a, 357.52772 + 35999.05034 * 40 - .0001603 * 1600 - 64000 / 300000., 1e-6): fail()
n = solar.get_nutation(40.0)['longitude']
if not near(n, -0.0017, 1) : fail(n)
""", "instants centuries away from 2000", "nutation through the Sun's mean anomaly")

bug("C10-lower-limit", "C10", (SO, "    atmos_refract = 0.5667", "    atmos_refract = 0.5636"), HEAD + """
for e in (-.8330, -.8325):
    if not solar.get_refraction_correction(101325., 288.15, e) > 0: fail(e)
""", "a Sun between 0.8303 and 0.8334 degrees below the horizon", "no refraction in the last three thousandths of a degree of the documented range")

bug("C11-height-forgotten", "C11", (SO, '''    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)

    azimuth = ''', '''    topocentric_sun_declination, topocentric_local_hour_angle = \\
        get_topocentric_position(latitude_deg, longitude_deg, when)

    azimuth = '''), HEAD + """
w = D(2020, 6, 4, 15, 6, 7, tzinfo=U)
if solar.get_azimuth(20., 0., w, 20000.) != solar.get_position(20., 0., w, 20000.)[0]: fail()
""", "a high place", "get_azimuth ignores the height, get_position does not")

bug("C13-leap-day", "C13", (SO, "equation_of_time(math.tm_yday(when)))", "equation_of_time(math.tm_yday(when) % 366))"), HEAD + """
w = D(2020, 12, 31, 12, 0, tzinfo=U)
if not near(solar.get_solar_time(0., w) * 60, 720 + solar.equation_of_time(366), 1e-9): fail()
""", "31 December of a leap year", "solar time half a minute off")

bug("C14-whole-hours", "C14", (UT, "    SHA = (utc_offset / 3600 * 15.0", "    SHA = (utc_offset // 3600 * 15.0"), HEAD + """
w = D(2020, 3, 4, 5, 6, 7, tzinfo=U)
a = util.get_transit_time(27.7, 85.3, w.astimezone(Z(TD(hours=5, minutes=45))))
b = util.get_transit_time(27.7, 85.3, w.astimezone(Z(TD(hours=6))))
if not near(a.timestamp(), b.timestamp(), 120): fail(a, b)
""" if False else HEAD + """
w = D(2020, 3, 4, 5, 6, 7, tzinfo=U)
a = util.get_transit_time(27.7, 85.3, w.astimezone(Z(TD(hours=5, minutes=45))))
b = util.get_transit_time(27.7, 85.3, w.astimezone(Z(TD(hours=6))))
if not near(a.timestamp(), b.timestamp(), 120): fail(a, b)
""", "a UTC offset that is not whole hours", "sunrise, transit and sunset shifted by the fraction")

bug("C14-utc-day", "C14", (UT, "    day = when.timetuple().tm_yday # Day of the year", "    day = when.utctimetuple().tm_yday # Day of the year"), HEAD + """
z = Z(TD(hours=10))
a, b = [util.get_sunrise_time(-60., 150., D(2020, 3, 4, h, 0, tzinfo=z)) for h in (5, 15)]
if a != b: fail(a, b)
""", "a local time whose UTC date is another day", "the answer changes in the course of the local day")

bug("C15-low-sun", "C15", (RA, "    is_daytime = (altitude_deg > 0)", "    is_daytime = (altitude_deg >= 1)"), HEAD + """
w = D(2020, 3, 4, 5, 6, 7, tzinfo=U)
if not radiation.get_radiation_direct(w, .9) > 0: fail()
""", "an altitude between 0 and 1 degree", "no radiation from a Sun just above the horizon")

bug("C16-last-term", "C16", (UT, "    df = math.sin(2 * (2 * math.pi", "    df = math.sin(2 * (math.pi"), HEAD + """
import math
w = D(2020, 3, 4, 12, 6, 7, tzinfo=U)
n = w.timetuple().tm_yday
g = 2 * math.pi * (n - 1) / 365
e = 1.0001 + .034221 * math.cos(g) + .00128 * math.sin(g) + .000719 * math.cos(2 * g) + .000077 * math.sin(2 * g)
d, h, l = math.radians(solar.get_declination(n)), math.radians(solar.get_hour_angle(w, 0.)), math.radians(40)
s = math.sin(l) * math.sin(d) + math.cos(l) * math.cos(d) * math.cos(h)
if not near(util.extraterrestrial_irrad(40., 0., w), 1367 * s * e, 1e-6): fail()
""", "any day but the first; a tenth of a watt", "smallest term of the eccentricity factor")

bug("C17-swapped", "C17", (UT, '''    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
    return ((-0.0067133)''', '''    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, temperature, elevation,pressure)
    return ((-0.0067133)''') if False else (UT, '''    DIFOC = ((mean_earth_sun_distance(when)
              )*(DT)*(solar.get_altitude(latitude_deg,longitude_deg, when, elevation,
                                        temperature, pressure)))''', '''    DIFOC = ((mean_earth_sun_distance(when)
              )*(DT)*(solar.get_altitude(latitude_deg,longitude_deg, when, elevation,
                                        pressure = pressure)))'''), HEAD + """
w = D(2020, 3, 4, 7, 0, tzinfo=U)
if util.diffuse_underovercast(40., 0., w, 0., 250.) == util.diffuse_underovercast(40., 0., w, 0., 300.): fail()
""", "a temperature other than the standard one", "diffuse_underovercast ignores the temperature")

bug("C18-mode-first", "C18", [(NU, '''    Import required functions/constants from numpy
    """
''', '''    Import required functions/constants from numpy
    """
    globals()['current_mod'] = 'numpy'
    globals()['tm_yday'] = tm_yday_numpy
    globals()['tm_hour'] = tm_hour_numpy
    globals()['tm_min'] = tm_min_numpy
'''), (NU, '''    globals_import_from('numpy', 'where', 'where')
    globals()['tm_yday'] = tm_yday_numpy
    globals()['tm_hour'] = tm_hour_numpy
    globals()['tm_min'] = tm_min_numpy
    globals()['current_mod'] = 'numpy'
''', '''    globals_import_from('numpy', 'where', 'where')
''')], """
import sys
sys.modules['numpy'] = None
import pysolar
from pysolar import numeric, solar
import datetime
try: pysolar.use_numpy()
except ImportError: pass
w = datetime.datetime(2020, 3, 4, 7, 0, tzinfo=datetime.timezone.utc)
try: solar.get_altitude_fast(40., 0., w)
except Exception as e: print(e); sys.exit(1)
sys.exit(0 if numeric.current_mod == 'math' else 1)
""", "choosing numpy (or importing pysolar) where it is not installed", "a refused switch leaves a half-switched backend")

bug("C19-any-visible", "C19", (SO, '''    visible = topocentric_elevation_angle >= -1.0*(sun_radius + atmos_refract)
''', '''    visible = topocentric_elevation_angle >= -1.0*(sun_radius + atmos_refract)
    if hasattr(visible, 'any') and not visible.any() :
        return 0.0 # night everywhere
    #end if
'''), HEAD + """
import numpy as np
pysolar.use_numpy()
r = solar.get_refraction_correction(np.array([101325., 90000.]), 288.15, np.array([-5., -6.]))
if np.shape(r) != (2,): fail()
""", "an array in which no Sun is above the refraction limit", "a number instead of an array")

bug("C19-before-1970", "C19", (NU, '''    dh = numpy.array(d, dtype='datetime64[h]')
    dd = numpy.array(d, dtype='datetime64[D]')
    return (dh - dd).astype('int')
''', '''    seconds = numpy.array(d, dtype='datetime64[s]').astype('int64')
    return (numpy.fmod(seconds, 86400) // 3600).astype('int')
'''), HEAD + """
import numpy as np
pysolar.use_numpy()
t = D(1965, 3, 4, 7, 30)
r = solar.get_hour_angle(np.array([t], dtype='datetime64[us]'), 10.)[0]
pysolar.use_math()
if not near(r, solar.get_hour_angle(t.replace(tzinfo=U), 10.), 1e-6): fail(r)
""", "instants before 1970 with the numpy backend", "hour of the day counted from the wrong end")

bug("C20-rounded-memo", "C20", [(SO, '''def get_sun_earth_distance(jme):
    return get_coeff(jme, constants.sun_earth_distance_coeffs) / 1e8''', '''_distances = {}

def get_sun_earth_distance(jme):
    key = round(jme, 8) # changes slowly
    if key not in _distances :
        _distances[key] = get_coeff(jme, constants.sun_earth_distance_coeffs) / 1e8
    #end if
    return _distances[key]''')], HEAD + """
a = .02
solar.get_sun_earth_distance(a)
x = solar.get_sun_earth_distance(a + 4e-9)
y = solar.get_coeff(a + 4e-9, constants.sun_earth_distance_coeffs) / 1e8
if x != y: fail(x, y)
""", "two instants within a few minutes of each other, in one process", "the second gets the first one's distance")

bug("C20-shared-nutation", "C20", [(SO, '''def get_nutation(jce):
''', '''_last_nutation = [None, None]

def get_nutation(jce):
    if _last_nutation[0] == jce :
        return _last_nutation[1]
    #end if
'''), (SO, '''    return nutation
#end get_nutation''', '''    _last_nutation[:] = [jce, nutation]
    return nutation
#end get_nutation''')], HEAD + """
a = solar.get_nutation(.2)
v = dict(a)
a['longitude'] += 1
if solar.get_nutation(.2) != v: fail()
""", "a caller that changes the returned dictionary and asks for the same instant again", "a returned object is shared with the cache")

bug("C21-float-count", "C21", (SI, "    for n in range(span // dt) :", "    for n in range(int(span.total_seconds() // step)) :"), HEAD + """
bad = 0
for k in range(1, 3000):
    step = k / 100
    dt = TD(seconds=step * 60)
    s = D(2020, 1, 1, tzinfo=U)
    for n in (1, 3, 7):
        if len(list(simulate.datetime_range(s, s + dt * n, step))) != n: fail(step, n)
""", "a fractional step whose seconds are just above a whole number as a double", "the last datetime is missing")

bug("C22-truncated", "C22", (SI, "        if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :", "        if shade < alt_zero - int(alt_zero * math.sin(math.radians(alt))) :"), HEAD + """
import math
s = D(2020, 6, 1, 6, tzinfo=U)
for lim in range(0, 380):
    for t, alt, azi, rad, shade in simulate.simulate_span(40., 0., [lim], s, s + TD(hours=6), 60):
        dark = lim < 380 - round(380 * math.sin(math.radians(alt)))
        if (rad == 0) != dark: fail(lim, t)
""", "a horizon within one unit of the Sun's height", "shadow where there is none")

bug("C23-lapse", "C23", (EL, "** ((g * M) / (R * Tl))", "** ((g * M) / (R * earth_temperature_lapse_rate))"), HEAD + """
import math
p = elevation.get_pressure_with_elevation(2000., Tl=-.005)
if not near(p, 101325. * (288.15 / (288.15 - 10)) ** (9.80665 * .0289644 / (8.31432 * -.005)), 1e-3): fail(p)
""", "a lapse rate other than the standard one", "the exponent keeps the standard lapse rate")

bug("C23-warning", "C23", (EL, "    if h > 11000.0 :", "    if h - Hb > 11000.0 :"), HEAD + """
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    elevation.get_pressure_with_elevation(15000., Hb=11000.)
    if not w: fail()
""", "a layer that starts above sea level", "no warning above 11000 m")

bug("C24-behind", "C24", (SO, "    so_rad = math.radians(slope_orientation)\n", "    so_rad = math.radians(slope_orientation % 180 if slope_orientation > 180 else slope_orientation)\n"), HEAD + """
import math
def inc(z, s, o, a):
    r = math.radians
    return math.degrees(math.acos(math.cos(r(z)) * math.cos(r(s)) + math.sin(r(s)) * math.sin(r(z)) * math.cos(r(a) - math.pi - r(o))))
if not near(solar.get_incidence_angle(40., 30., 250., 100.), inc(40., 30., 250., 100.), 1e-6): fail()
""", "an orientation beyond 180 degrees", "slopes facing east when measured the long way round")

bug("C25-incomplete-year", "C25", ("util/get_delta_t", '''            assert last_month == 12, "incomplete year %d at month %d" % (last_year, last_month)
''', '''            assert last_month == 12 or last_year % 4, "incomplete year %d at month %d" % (last_year, last_month)
'''), """
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "data")
    open(p, "w").write("".join(" 1999 %2d  1  60.1234\\n" % m for m in range(1, 12)) + " 2000  1  1  61.0\\n")
    r = subprocess.run([sys.executable, "util/get_delta_t", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
sys.exit(0 if r.returncode else 1)
""", "a year other than a leap year without its last months", "an incomplete table")

bug("C26-coefficient", "C26", (RE, "(1 + 1.1811 * w + 1.0699 * w ** 2)", "(1 + 1.1811 * w + 1.0669 * w ** 2)"), HEAD + """
w = 3.
if not near(rest.get_water_vapor_transmittance_coefficients("low-frequency", w)[2], w * (.50158 - .14732 * w + .047584 * w * w) / (1 + 1.1811 * w + 1.0699 * w * w), 1e-9): fail()
""", "humid air", "one coefficient of the water vapour transmittance")

bug("C27-early-publication", "C27", (CO, '''        aberration_coeffs = dict \\
          (
            (name, (lambda a, b, c, d: lambda x: a + b * x + c * x ** 2 + (x ** 3) / d)(*coeffs))
            for name, coeffs in
                (''', '''        aberration_coeffs = {}
        aberration_coeffs.update \\
          (
            (name, (lambda a, b, c, d: lambda x: a + b * x + c * x ** 2 + (x ** 3) / d)(*coeffs))
            for name, coeffs in
                ('''), """
import sys, threading
from pysolar import solar, constants
sys.setswitchinterval(1e-6)
errors = []
seen = threading.Event(); go = threading.Event()
def tracer(frame, event, arg):
    # the first thread stops once the table has been published but not filled
    if frame.f_code.co_filename.endswith("constants.py"):
        if constants.aberration_coeffs is not None and len(constants.aberration_coeffs) < 5 and not seen.is_set():
            seen.set(); go.wait(5)
        return tracer
    return None
def first():
    sys.settrace(tracer)
    try: solar.get_nutation(.1)
    except Exception as e: errors.append(e)
    finally: sys.settrace(None); seen.set()
def second():
    seen.wait(5)
    try: solar.get_nutation(.1)
    except Exception as e: errors.append(e)
    finally: go.set()
ts = [threading.Thread(target=f) for f in (first, second)]
for t in ts: t.start()
for t in ts: t.join()
sys.exit(1 if errors else 0)
""", "a second thread asking while the first one builds the table", "KeyError in one of two threads at first use")

bug("C28-first-year", "C28", (ST, '''    when = when.utctimetuple()
    year, month = when.tm_year, when.tm_mon
    if year''', '''    month_start = when - datetime.timedelta(days = when.day)
    when = when.utctimetuple()
    year, month = when.tm_year, when.tm_mon
    if month_start.year > year and month == 12 : # cannot be
        year = month_start.year
    #end if
    if year'''), HEAD + """
try: solar.get_altitude(10., 10., D(1, 1, 3, tzinfo=U))
except OverflowError: fail()
""", "January of the year 1", "OverflowError")

# ---- second batch
bug("C01-warn-once", "C01", [(ST, """@check_aware_dt('when')
def get_leap_seconds(when) :""", """_leap_warned = set()

@check_aware_dt('when')
def get_leap_seconds(when) :"""), (ST, """                        when.tm_mon > 6
            ) :
""", """                        when.tm_mon > 6
            ) and when.tm_year not in _leap_warned :
                _leap_warned.add(when.tm_year)
""")], HEAD + """
for k in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        solartime.get_leap_seconds(D(2030, 1, 1 + k, tzinfo=U))
        if not w: fail(k)
""", "a second instant in the same year past the table", "no warning the second time")

bug("C03-next-day-leap", "C03", (ST, """                (when.timestamp() + get_leap_seconds(when) + tt_offset)
            /
""", """                (when.timestamp() + get_leap_seconds(datetime.datetime.fromtimestamp(when.timestamp() + tt_offset, datetime.timezone.utc)) + tt_offset)
            /
""") if False else (ST, """                (when.timestamp() + get_leap_seconds(when) + tt_offset)
            /
""", """                (when.timestamp() + get_leap_seconds(when + datetime.timedelta(seconds = round(tt_offset))) + tt_offset)
            /
"""), """
import datetime
""" + HEAD + """
w = D(2016, 12, 31, 23, 59, 45, tzinfo=U)
d = (solartime.get_julian_ephemeris_day(w) - 2440587.5) * 86400 - w.timestamp()
if not near(d, 36 + 32.184, .01): fail(d)
""", "the last 32 seconds before a leap second", "the new leap second is counted half a minute early")

bug("C03-before-1900", "C03", (ST, "    return (julian_ephemeris_day - 2451545.0) / 36525.0", "    return (julian_ephemeris_day - 2451545.0) / (36525.0 if julian_ephemeris_day > 2415020.5 else 36524.25)"), HEAD + """
if not near(solartime.get_julian_ephemeris_century(2415020.0), -36525.0 / 36525, 1e-9): fail()
""", "a date before 1900", "ephemeris centuries of another length")

bug("C04-fold-lost", "C04", (ST, """    return \\
        (
                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))
""", """    when = when.replace(hour = when.hour) if when.year > 1 else when # a plain datetime
    when = type(when).combine(when.date(), when.time(), when.tzinfo)
    return \\
        (
                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))
""") if False else (ST, """                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))
""", """                (datetime.datetime(*when.timetuple()[:6], when.microsecond, when.tzinfo).timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))
"""), HEAD + """
try: import zoneinfo; z = zoneinfo.ZoneInfo("Europe/Berlin")
except Exception: sys.exit(0)
w = D(2020, 10, 25, 1, 30, tzinfo=U)
if solartime.get_julian_solar_day(w) != solartime.get_julian_solar_day(w.astimezone(z)): fail()
""", "the second pass through the hour repeated at the end of daylight saving time", "an hour too early")

bug("C05-array-of-objects", "C05", (TZ, "          if not hasattr(dt, 'shape'):   #", "          if not hasattr(dt, 'shape') and (not hasattr(dt, 'ctime') or hasattr(dt, 'hour')):   #"), HEAD + """
import datetime as dt
try: util.declination_degree(dt.date(2020, 1, 1))
except ValueError: pass
except AttributeError: fail()
else: fail()
""", "a date instead of a datetime", "AttributeError instead of ValueError")

bug("C08-deep-places", "C08", (SO, "    return 0.99664719 * math.sin(flattened_latitude_rad) + (elevation * math.sin(latitude_rad) / constants.earth_radius)", "    return 0.99664719 * math.sin(flattened_latitude_rad) + (elevation * math.sin(flattened_latitude_rad) / constants.earth_radius)"), HEAD + """
import math
u = math.atan(.99664719 * math.tan(math.radians(45)))
if not near(solar.get_projected_axial_distance(9000., 45.), .99664719 * math.sin(u) + 9000 * math.sin(math.radians(45)) / 6378140., 1e-9): fail()
""", "a high place at a middle latitude", "the height is projected along the flattened latitude")

bug("C09-southern-horizon", "C09", (SO, "    return (180.0 + math.degrees(math.atan2(a, b))) % 360\n\ndef get_topocentric_elevation", "    azimuth = 180.0 + math.degrees(math.atan2(a, b))\n    return azimuth - 360 if azimuth > 360 else azimuth\n\ndef get_topocentric_elevation") if False else (SO, "    return (180.0 + math.degrees(math.atan2(a, b))) % 360", "    return 180.0 + math.degrees(math.atan2(a, b))"), HEAD + """
r = solar.get_topocentric_azimuth_angle(180., 40., 10.), solar.get_topocentric_azimuth_angle(0., -40., 10.)
if not all(0 <= x < 360 for x in r): fail(r)
""", "a Sun exactly in the north", "azimuth 360")

bug("C10-cold-air", "C10", (SO, "    b = 1010.0 * temperature * 60.0", "    b = 1010.0 * math.where(temperature > 200, temperature, 200.0) * 60.0"), HEAD + """
a, b = solar.get_refraction_correction(101325., 190., 5.), solar.get_refraction_correction(101325., 380., 5.)
if not near(a, 2 * b, 1e-9): fail(a, b)
""", "a temperature below 200 K", "refraction is no longer inversely proportional to the temperature")

bug("C11-longitude-turn", "C11", (SO, """    projected_axial_distance = get_projected_axial_distance(elevation, latitude_deg)

""", """    projected_axial_distance = get_projected_axial_distance(elevation, latitude_deg)
    longitude_deg = math.where(longitude_deg > 360, longitude_deg % 180, longitude_deg)

"""), HEAD + """
w = D(2020, 6, 4, 15, 6, 7, tzinfo=U)
if not near(solar.get_azimuth(40., 200. + 360, w), solar.get_azimuth(40., 200., w), 1e-6): fail()
""", "a longitude given with a whole turn too many", "half a turn lost")

bug("C14-noon-shift", "C14", (UT, "    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))", "    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(minutes = utc_offset // 60)))"), HEAD + """
w = D(2020, 3, 4, 12, 0, tzinfo=Z(TD(hours=1, seconds=59)))
a = util.get_transit_time(40., 10., w)
b = util.get_transit_time(40., 10., w.astimezone(Z(TD(hours=1))))
if not near(a.timestamp(), b.timestamp(), 1): fail(a, b)
""", "a UTC offset with seconds, as in local mean time", "up to a minute off")

bug("C16-negative-irradiance", "C16", (UT, "    return SC * ZA * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df) if ZA > 0 else 0.0", "    return SC * ZA * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df) if math.degrees(math.asin(ZA)) > -0.833 else 0.0"), HEAD + """
for k in range(0, 3600):
    lon = k / 10. - 180
    if util.extraterrestrial_irrad(40., lon, D(2020, 3, 4, 6, 0, tzinfo=U)) < 0: fail(lon)
""", "a Sun less than 0.833 degrees below the horizon", "a negative irradiance")

bug("C17-global-default", "C17", (UT, """    DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
                               elevation, temperature = temperature,
                               pressure = pressure, TL = TL)""", """    DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
                               elevation, temperature,
                               pressure = pressure, TL = TL or TL_default)"""), HEAD + """
w = D(2020, 3, 4, 12, 0, tzinfo=U)
a = util.global_irradiance_clear(40., 0., w, TL=0)
b = util.direct_underclear(40., 0., w, TL=0) + util.diffuse_underclear(40., 0., w, TL=0)
if not near(a, b, 1e-6): fail(a, b)
""", "a turbidity of exactly zero", "the default turbidity instead")

bug("C18-log-stays", "C18", (NU, "    globals()['tm_min'] = tm_min_math\n", ""), HEAD + """
pysolar.use_numpy(); pysolar.use_math()
w = D(2020, 3, 4, 12, 7, tzinfo=U)
if type(solar.get_hour_angle(w, 3.)) is not float: fail()
""", "use_numpy followed by use_math", "the minutes still come from numpy")

bug("C19-first-instant", "C19", (NU, """    dd = numpy.array(d, dtype='datetime64[D]')
    dy = numpy.array(d, dtype='datetime64[Y]')
    return (dd - dy).astype('int') + 1""", """    dd = numpy.array(d, dtype='datetime64[D]')
    if dd.size and (dd.max() - dd.min()).astype('int') <= 1 :
        dd = dd.min() # all on one day, near enough
    #end if
    dy = dd.astype('datetime64[Y]')
    return (dd - dy).astype('int') + 1"""), HEAD + """
import numpy as np
pysolar.use_numpy()
a = np.array(["2020-03-04T23:00", "2020-03-05T01:00"], dtype="datetime64[m]")
r = solar.get_altitude_fast(40., 10., a)
s = [solar.get_altitude_fast(40., 10., D(2020, 3, 4, 23, tzinfo=U)), solar.get_altitude_fast(40., 10., D(2020, 3, 5, 1, tzinfo=U))]
if not (near(r[0], s[0], 1e-6) and near(r[1], s[1], 1e-6)): fail(r, s)
""", "an array of instants on two adjacent days", "all take the first one's day")

bug("C19-shared-refraction", "C19", (SO, "    del_e = math.where(visible, a / b, 0.)", "    del_e = a / b\n    if hasattr(del_e, 'shape') and del_e.shape == getattr(visible, 'shape', None) :\n        del_e[~visible] = 0.\n    else :\n        del_e = math.where(visible.all() if hasattr(visible, 'all') else visible, del_e, 0.)\n    #end if") if False else (SO, "    visible = topocentric_elevation_angle >= -1.0*(sun_radius + atmos_refract)\n", "    visible = topocentric_elevation_angle >= -1.0*(sun_radius + atmos_refract)\n    if getattr(visible, 'ndim', 0) > 1 :\n        visible = visible | visible.any(axis = 0) # keep whole columns\n    #end if\n"), HEAD + """
import numpy as np
pysolar.use_numpy()
r = solar.get_refraction_correction(101325., 288.15, np.array([[5., 5.], [-3., 4.]]))
if r[1, 0] != 0: fail(r)
""", "a two-dimensional array with Suns above and below the horizon", "refraction below the horizon")

bug("C20-horizon-sorted", "C20", (SI, "    alt_zero = 380\n", "    alt_zero = 380\n    for i, h in enumerate(horizon) :\n        if h > alt_zero :\n            horizon[i] = alt_zero # cannot be higher than the zenith\n        #end if\n    #end for\n"), HEAD + """
h = [10, 400, 20]
list(simulate.simulate_span(40., 0., h, D(2020, 1, 1, tzinfo=U), D(2020, 1, 1, 2, tzinfo=U), 60))
if h != [10, 400, 20]: fail(h)
""", "a horizon with an entry above 380", "the caller's list is changed")

bug("C21-partial-step", "C21", (SI, "    for n in range(span // dt) :", "    for n in range(-(-span // dt)) :"), HEAD + """
s = D(2020, 1, 1, tzinfo=U)
if len(list(simulate.datetime_range(s, s + TD(minutes=25), 10))) != 2: fail()
""", "a span that is not a whole number of steps", "one datetime more")

bug("C22-height-of-azimuth", "C22", (SI, "        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)", "        azi = solar.get_azimuth(latitude_deg, longitude_deg, time)"), HEAD + """
s = D(2020, 6, 1, 11, tzinfo=U)
for t, alt, azi, rad, shade in simulate.simulate_span(20., 0., [0] * 360, s, s + TD(hours=2), 60, 20000.):
    if azi != solar.get_azimuth(20., 0., t, 20000.): fail(t)
""", "a high place", "the azimuth of sea level")

bug("C22-horizon-length", "C22", (SI, "        shade = horizon[round(azi) % len(horizon)]", "        shade = horizon[round(azi) % 360 % len(horizon)]"), HEAD + """
s = D(2020, 6, 1, 0, tzinfo=U)
h = list(range(720))
n = 0
for t, alt, azi, rad, shade in simulate.simulate_span(-40., 0., h, s, s + TD(hours=24), 1):
    if shade != h[round(azi) % 720]: fail(t, azi)
    n += round(azi) == 360
if not n: fail("no sample")
""", "a horizon of more than 360 entries and an azimuth that rounds to 360", "entry 0 instead of 360")

bug("C23-base-height", "C23", (EL, "        Ps * (Ts / (Ts + Tl * (h - Hb)))", "        Ps * ((Ts + Tl * Hb) / (Ts + Tl * h))"), HEAD + """
if not near(elevation.get_pressure_with_elevation(3000., Hb=1000.), 101325. * (288.15 / (288.15 - 13)) ** (9.80665 * .0289644 / (8.31432 * -.0065)), 1e-3): fail()
""", "a layer that does not start at sea level", "the temperature at the base taken for that at sea level")

bug("C24-steep", "C24", (SO, "    slope_rad = math.radians(slope)\n", "    slope_rad = math.radians(min(slope, 90))\n") , HEAD + """
if not near(solar.get_incidence_angle(30., 120., 0., 180.), 90., 1e-6): fail(solar.get_incidence_angle(30., 120., 0., 180.))
""", "an overhanging surface", "treated as a wall")

bug("C26-scatter-power", "C26", (RE, "            (1 + 0.14865 * ma ** 1.5)", "            (1 + 0.14865 * ma ** 2)"), HEAD + """
a = rest.get_aerosol_scattering_correction_factor("low-frequency", 5., .4)
m = 5.
h0 = (3.4352 + 0.65267 * m + 0.00034328 * m ** 2) / (1 + 0.034388 * m ** 1.5)
h1 = (1.231 - 1.63853 * m + 0.20667 * m ** 2) / (1 + 0.1451 * m ** 1.5)
h2 = (0.8889 - 0.55063 * m + 0.50152 * m ** 2) / (1 + 0.14865 * m ** 1.5)
if not near(a, (h0 + h1 * .4) / (1 + h2 * .4), 1e-9): fail()
""", "an air mass other than one", "exponent of one coefficient")

bug("C27-scratch-list", "C27", [(SO, "def get_nutation(jce):\n", "_sums = [0.0, 0.0]   # kept between calls, saves building lists\n\ndef get_nutation(jce):\n    _sums[:] = 0.0, 0.0\n"),
 (SO, "        nutation_long.append((abcd[i][0] + (abcd[i][1] * jce)) * math.sin(math.radians(sigmaxy)))\n        nutation_oblique.append((abcd[i][2] + (abcd[i][3] * jce)) * math.cos(math.radians(sigmaxy)))\n",
      "        _sums[0] += (abcd[i][0] + (abcd[i][1] * jce)) * math.sin(math.radians(sigmaxy))\n        _sums[1] += (abcd[i][2] + (abcd[i][3] * jce)) * math.cos(math.radians(sigmaxy))\n"),
 (SO, "    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}", "    nutation = {'longitude' : _sums[0]/36000000.0, 'obliquity' : _sums[1]/36000000.0}")], """
import sys, threading
from pysolar import solar
sys.setswitchinterval(1e-6)
js = [.01 * k for k in range(8)]
want = [solar.get_nutation(j) for j in js]
bad = []
def work(k):
    for _ in range(150):
        n = solar.get_nutation(js[k])
        if abs(n['longitude'] - want[k]['longitude']) > 1e-9: bad.append(k)
ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
for t in ts: t.start()
for t in ts: t.join()
sys.exit(1 if bad else 0)
""", "two threads computing nutations at the same time", "sums mixed between threads")

bug("C28-end-of-time", "C28", (ST, "    return \\\n        (\n                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n" if False else """                (when.timestamp() + get_leap_seconds(when) + tt_offset)
""", """                ((when + datetime.timedelta(seconds = get_leap_seconds(when))).timestamp() + tt_offset)
"""), HEAD + """
w = D(9999, 12, 31, 23, 59, 59, tzinfo=U)
try: solar.get_altitude(40., 0., w)
except OverflowError: fail()
""", "the last half minute of the year 9999", "OverflowError")

bug("C28-pole", "C28", (SO, "    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))", "    return math.degrees(math.atan(0.99664719 * math.sin(latitude_rad) / math.cos(math.radians(round(latitude, 9)) if abs(latitude) != 90 else 1.5707963267948966 + 6.123233995736766e-17)))") if False else (RA, "    air_mass_ratio = get_air_mass_ratio(math.where(is_daytime, altitude_deg, 90.0))", "    air_mass_ratio = get_air_mass_ratio(math.where(altitude_deg > -0.833, altitude_deg, 90.0))"), HEAD + """
pysolar.use_math()
w = D(2020, 3, 4, tzinfo=U)
for a in (-1e-4, -1e-6, -1e-9):
    try: r = radiation.get_radiation_direct(w, a)
    except OverflowError: fail(a)
    if r != 0: fail(a, r)
""", "an altitude just below zero", "OverflowError or NaN")

# --- third batch
bug("C06-last-series", "C06", (SO, "    for line in coeffs :\n", "    for line in coeffs[:5] :\n"), HEAD + """
import math
def ref(jme):
    return math.degrees(sum(jme ** i * sum(a * math.cos(b + c * jme) for a, b, c in l) for i, l in enumerate(constants.heliocentric_longitude_coeffs)) / 1e8) % 360
if not near(solar.get_heliocentric_longitude(-2.), ref(-2.), 1e-6): fail()
""", "millennia far from J2000, where the fifth power counts", "the series L5 is lost")

bug("C07-tenth-power", "C07", (SO, "(2.45 * u ** 10)", "(2.45 * u ** 9)"), HEAD + """
n = {"longitude": 0., "obliquity": 0.}
u = -.2
want = (84381.448 - 4680.93 * u - 1.55 * u ** 2 + 1999.25 * u ** 3 - 51.38 * u ** 4 - 249.67 * u ** 5 - 39.05 * u ** 6 + 7.12 * u ** 7 + 27.87 * u ** 8 + 5.79 * u ** 9 + 2.45 * u ** 10) / 3600
if not near(solar.get_true_ecliptic_obliquity(-2., n), want, 1e-11): fail()
""", "millennia far from J2000", "last term of the mean obliquity")

bug("C08-below-sea", "C08", (SO, "    return math.cos(flattened_latitude_rad) + (elevation * math.cos(latitude_rad) / constants.earth_radius)", "    return math.cos(flattened_latitude_rad) + (abs(elevation) * math.cos(latitude_rad) / constants.earth_radius)"), HEAD + """
a, b, c = (solar.get_projected_radial_distance(e, 31.5) for e in (-430, 0, 430))
if not near(a + c, 2 * b, 1e-12): fail()
""", "a place below sea level", "height taken as positive")

bug("C03-milliseconds", "C03", (ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))", "                (round(when.timestamp(), 3) + get_leap_seconds(when) + tt_offset - get_delta_t(when))"), HEAD + """
a = solartime.get_julian_solar_day(D(2003, 10, 17, 19, 30, 30, tzinfo=U))
b = solartime.get_julian_solar_day(D(2003, 10, 17, 19, 30, 30, 450, tzinfo=U))
if not near((b - a) * 86400, .00045, .00011): fail(b - a)
""", "an instant that is not a multiple of a millisecond", "Julian day of a rounded instant")

bug("C11-vacuum", "C11", (SO, """    refraction_correction = get_refraction_correction(pressure, temperature,
                                                      topocentric_elevation_angle)""", """    refraction_correction = get_refraction_correction(pressure or constants.standard_pressure, temperature,
                                                      topocentric_elevation_angle)"""), HEAD + """
pysolar.use_math()
w = D(2020, 3, 4, 17, 30, tzinfo=U)
if solar.get_position(40., 0., w, 0, 288.15, 0)[1] != solar.get_altitude(40., 0., w, 0, 288.15, 0): fail()
""", "get_position with a pressure of zero (no air)", "refraction of the standard atmosphere where there is none")

bug("C14-seconds-of-offset", "C14", (UT, "        utc_offset = utc_offset.total_seconds()\n", "        utc_offset = utc_offset.seconds - (86400 if utc_offset.seconds > 43200 else 0)\n"), HEAD + """
w = D(2020, 3, 4, 12, tzinfo=Z(TD(hours=14)))
t = util.get_transit_time(1.87, -157.4, w)
if t.date() != w.date(): fail(t)
""", "a UTC offset of more than twelve hours", "the transit of another day")

bug("C17-overcast-air", "C17", (UT, """    ghioc = (572 * (solar.get_altitude(latitude_deg, longitude_deg, when,
                                    elevation , temperature , pressure )))""", """    ghioc = (572 * (solar.get_altitude(latitude_deg, longitude_deg, when,
                                    elevation , pressure = pressure )))"""), HEAD + """
w = D(2020, 6, 4, 6, 0, tzinfo=U)
if near(util.global_irradiance_overcast(40., 0., w, temperature=240.), util.global_irradiance_overcast(40., 0., w, temperature=310.), 1e-6): fail()
""", "a temperature given to global_irradiance_overcast", "the temperature has no effect")

bug("C18-exp-stays", "C18", (NU, "    globals_import_from('math', 'exp', 'exp')\n", ""), HEAD + """
pysolar.use_numpy(); pysolar.use_math()
r = radiation.get_radiation_direct(D(2020, 3, 4, 12, tzinfo=U), 40.)
if type(r) is not float: fail(type(r))
""", "use_math after numpy was in use", "numpy's exponential stays in use")

bug("C20-year-memo", "C20", [(ST, '''    when = when.utctimetuple()
    adj = 10''', '''    when = when.utctimetuple()
    if when.tm_year in _adj_for_year :
        return _adj_for_year[when.tm_year]
    adj = 10'''), (ST, '''    return \\
        adj
#end get_leap_seconds''', '''    if when.tm_year < leap_seconds_base_year + len(leap_seconds_adjustments) : # else the warning is needed
        _adj_for_year[when.tm_year] = adj
    return \\
        adj
#end get_leap_seconds'''), (ST, '''@check_aware_dt('when')
def get_leap_seconds(''', '''_adj_for_year = {} # results so far

@check_aware_dt('when')
def get_leap_seconds(''')], HEAD + """
a, b = D(2015, 3, 1, tzinfo=U), D(2015, 9, 1, tzinfo=U)
solartime.get_leap_seconds(a)
if solartime.get_leap_seconds(b) != 36: fail()
""", "two instants of a year with a leap second in June, one before and one after it", "the answer depends on which was asked for first")

bug("C21-whole-seconds", "C21", (SI, "    step = step_minutes * 60\n", "    step = round(step_minutes * 60) or step_minutes * 60\n"), HEAD + """
a = D(2020, 3, 4, tzinfo=U)
x = list(simulate.datetime_range(a, a + TD(seconds=3), .025))
if x != [a, a + TD(seconds=1.5)]: fail(x)
""", "a step that is not a whole number of seconds", "steps rounded to seconds")

bug("C26-more-than-one", "C26", (RE, "        return min(1, (1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw))", "        return min((1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw), 1.1)"), HEAD + """
if rest.get_nitrogen_transmittance("high-frequency", 35., .87) > 1: fail()
""", "amounts of nitrogen dioxide for which the fit exceeds one", "a transmittance above one")

bug("C30-error-state", "C30", (NU, "    globals()['current_mod'] = 'numpy'\n", "    globals()['current_mod'] = 'numpy'\n    numpy.seterr(divide='ignore', invalid='ignore')  # the sun may be on the horizon\n"), """
import sys, numpy
before = numpy.geterr()
import pysolar
pysolar.use_numpy()
sys.exit(numpy.geterr() != before)
""", "numpy in use, and another part of the program relying on its error state", "numpy's floating-point error handling is changed for the whole process")

bug("C30-filters", "C30", (ST, "                warnings.warn \\\n", "                warnings.filterwarnings('once', 'Leap seconds')\n                warnings.warn \\\n"), """
import sys, warnings, datetime
from pysolar import solartime
before = list(warnings.filters)
solartime.get_leap_seconds(datetime.datetime(2040, 1, 1, tzinfo=datetime.timezone.utc))
sys.exit(warnings.filters != before)
""", "an instant after the leap second table", "the warning filters of the process grow")

bug("C30-print", "C30", (RA, "    except ZeroDivisionError :\n", "    except ZeroDivisionError :\n        print(\"sun on the horizon\")\n"), """
import sys, io, contextlib, pysolar
from pysolar import radiation
pysolar.use_math()
f = io.StringIO()
with contextlib.redirect_stdout(f): radiation.get_air_mass_ratio(0)
sys.exit(bool(f.getvalue()))
""", "the air mass of an altitude of exactly zero, with the math backend", "something is printed")

bug("C04-day-of-zone", "C04", (UT, "((when.utctimetuple().tm_yday) - 81))", "((when.timetuple().tm_yday) - 81))"), HEAD + """
w = D(2020, 3, 4, 23, 0, tzinfo=U)
if util.declination_degree(w) != util.declination_degree(w.astimezone(Z(TD(hours=3)))): fail()
""", "an instant whose local date differs from its UTC date", "declination of the local date")

bug("C05-keywords-trusted", "C05", (TZ, "          if not hasattr(dt, 'shape'):   #", "          if not hasattr(dt, 'shape') and (argname not in kwargs or len(kwargs) == 1):   #"), HEAD + """
try: util.declination_degree(when=D(2020, 3, 4), TY=365)
except ValueError: pass
else: fail()
""", "a naive datetime given by name together with another argument by name", "a naive datetime is accepted")

bug("C05-strings", "C05", (TZ, "          if not hasattr(dt, 'shape'):   #", "          if not hasattr(dt, '__len__'):   #"), HEAD + """
for x in ("2020-03-04", [D(2020, 3, 4)], ()):
    try: solar.get_altitude(40., 0., x)
    except ValueError: pass
    except Exception as e: fail(e)
    else: fail()
""", "a string or list in place of the datetime", "another exception from somewhere inside")

bug("C15-leap-new-year", "C15", (RA, "    day = math.tm_yday(when)\n", "    day = math.tm_yday(when) % 366\n"), HEAD + """
a = radiation.get_radiation_direct(D(2020, 12, 31, 12, tzinfo=U), 30.)
import math
k, f = .174 + .035 * math.sin(2 * math.pi / 365 * 266), 1160 + 75 * math.sin(2 * math.pi / 365 * 91)
if not near(a, f * math.exp(-k / math.sin(math.radians(30))), 1e-9): fail()
""", "the last day of a leap year", "coefficients of the day zero")

bug("C29-temperature-order", "C29", (EL, "def get_temperature_with_elevation(h, Ts=standard_temperature, Tl=earth_temperature_lapse_rate):", "def get_temperature_with_elevation(h, Tl=earth_temperature_lapse_rate, Ts=standard_temperature):"), HEAD + """
if not near(elevation.get_temperature_with_elevation(1000, 280., -.005), 275., 1e-9): fail()
""", "optional arguments given by position", "surface temperature taken for the lapse rate")

bug("C29-default-height", "C29", (UT, "elevation_default = 0.0 ", "elevation_default = 1.0 "), HEAD + """
w = D(2020, 3, 4, 12, tzinfo=U)
if any(util.diffuse_underclear(l, 0., w) != util.diffuse_underclear(l, 0., w, 0.) for l in range(60)): fail()
""", "the elevation left out", "one metre above the sea instead of at it")

bug("C22-default-air", "C22", (SI, "elevation = 0, temperature", "elevation = 2, temperature"), HEAD + """
w = D(2020, 3, 4, 12, tzinfo=U)
for l in range(-60, 60):
    a, b = (list(simulate.simulate_span(l, 0., [0] * 360, w, w + TD(hours=1), 60, *x)) for x in ((), (0,)))
    if a != b: fail()
""", "a simulation without an elevation", "a place two metres above the sea")

bug("C16-solar-constant", "C16", (UT, "    return SC * ZA * (1.00010 +", "    return (SC or SC_default) * ZA * (1.00010 +"), HEAD + """
if util.extraterrestrial_irrad(0., 0., D(2020, 3, 4, 12, tzinfo=U), 0.): fail()
""", "a solar constant of zero", "irradiance of the default solar constant")

RUN = """
import os, io, re, contextlib, time, types
def clock(*now):
    class C(D):
        @classmethod
        def now(cls, tz=None): return cls(*now, tzinfo=U).astimezone(tz) if tz else cls(*now)
    m = types.ModuleType("datetime"); m.__dict__.update({k: v for k, v in vars(datetime).items() if k[:2] != "__"}); m.datetime = C
    return m
def demo(*now):
    solar.datetime = clock(*now)
    o = io.StringIO()
    with contextlib.redirect_stdout(o): solar.solar_test()
    solar.datetime = datetime
    return [l.split() for l in o.getvalue().splitlines()]
def up(*now):
    t = [D(*now, tzinfo=U) + TD(minutes=30 * k) for k in range(48)]
    return [x.ctime().split() for x in t if solar.get_altitude(42.364908, -71.112828, x) > 0]
"""
bug("C32-local-time", "C32", (SO, "        timestamp = d.ctime()\n", "        timestamp = datetime.datetime.fromtimestamp(d.timestamp()).ctime()\n"), "import os, time\nos.environ['TZ'] = 'Asia/Tokyo'; time.tzset()\n" + HEAD + RUN + """
if [l[:5] for l in demo(2020, 3, 4, 5, 6, 7)] != up(2020, 3, 4, 5, 6, 7): fail()
""", "a machine whose timezone is not UTC", "local times printed as UTC")

bug("C32-last-half-hour", "C32", (SO, "    for _ in range(48):\n", "    for _ in range(48 - (d.minute >= 30)):\n"), HEAD + RUN + """
for m in (12, 42):
    if [l[:5] for l in demo(2020, 3, 4, 17, m, 7)] != up(2020, 3, 4, 17, m, 7): fail(m)
""", "a start by daylight in the second half of an hour", "the last half hour is left out")

bug("C32-low-sun", "C32", (SO, "        if (altitude_deg > 0):\n", "        if power > 1e-9 and altitude_deg > 0:\n"), HEAD + RUN + """
for k in range(60):
    if [l[:5] for l in demo(2020, 3, 4, 17, k, 7)] != up(2020, 3, 4, 17, k, 7): fail(k)
""", "a half hour at which the Sun is less than a few tenths of a degree up", "the line is left out")

STUB = """
import ast, inspect, os
def stub(module, name):
    for n in ast.parse(open(os.path.join(os.path.dirname(pysolar.__file__), module + ".pyi")).read()).body:
        if isinstance(n, ast.FunctionDef) and n.name == name: return [a.arg for a in n.args.args]
"""
bug("C33-clear-order", "C33", ("pysolar/util.pyi", "solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...)", "solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...)"), HEAD + STUB + """
if stub("util", "solarelevation_function_clear") != list(inspect.signature(util.solarelevation_function_clear).parameters): fail()
""", "a caller who goes by the type stub", "the stub declares the optional parameters in another order")

bug("C33-pair-as-list", "C33", (SO, "    return azimuth_deg, altitude_deg\n", "    return [azimuth_deg, altitude_deg]\n"), HEAD + """
if not isinstance(solar.get_position(40., 0., D(2020, 3, 4, 12, tzinfo=U)), tuple): fail()
""", "a caller who relies on the declared tuple, as a key for instance", "a list instead of the declared tuple")

bug("C33-new-argument", "C33", ("pysolar/solar.pyi", "def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...)", "def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...)"), HEAD + STUB + """
if stub("solar", "get_azimuth") != list(inspect.signature(solar.get_azimuth).parameters): fail()
""", "a caller who goes by the type stub", "the stub declares arguments the function does not take")

bug("C33-leap-years-float", "C33", (ST, "            if when.tm_mon > 6 :\n                adj += entry[0]\n", "            adj += entry[0] * (when.tm_mon > 6) / 1\n"), HEAD + """
if not all(isinstance(solartime.get_leap_seconds(D(y, m, 4, tzinfo=U)), int) for y in (1960, 2003, 2030) for m in (3, 9)): fail()
""", "leap seconds used where only a whole number will do (range, strftime)", "a float where the stub declares an int")

RACE = HEAD + """
import threading, os
PKG = os.path.dirname(pysolar.__file__)
def race(a, b):
    "runs a, and b in another thread in between, at every line in turn"
    want, k = a(), 0
    while True:
        n = [0]
        def tracer(f, event, arg):
            if not f.f_code.co_filename.startswith(PKG): return None
            if event == "line":
                if n[0] == k: t = threading.Thread(target=b); t.start(); t.join()
                n[0] += 1
            return tracer
        sys.settrace(tracer)
        try: r = a()
        finally: sys.settrace(None)
        if r != want or a() != want: fail(k, r, want)
        if n[0] <= k: return
        k += 1
"""
bug("C27-torn-memo", "C27", (SO, "    return constants.earth_axis_inclination * math.sin((2 * math.pi / 365.0) * (day - 81))\n", """    if not isinstance(day, int):
        return constants.earth_axis_inclination * math.sin((2 * math.pi / 365.0) * (day - 81))
    if get_declination.day != day:
        get_declination.value = constants.earth_axis_inclination * math.sin((2 * math.pi / 365.0) * (day - 81))
        get_declination.day = day
    return get_declination.value
get_declination.day = None
"""), RACE + """
race(lambda: solar.get_declination(100), lambda: solar.get_declination(200))
""", "a second thread asking about another day between the test and the use of what is remembered", "the declination of the other thread's day")

bug("C27-shared-hour", "C27", (UT, "    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)", """    mean_earth_sun_distance.phase = 2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365
    return 1 - 0.0335 * math.sin(mean_earth_sun_distance.phase)"""), RACE + """
a, b = [D(2020, m, 4, tzinfo=U) for m in (1, 5)]
race(lambda: util.mean_earth_sun_distance(a), lambda: util.mean_earth_sun_distance(b))
""", "a second thread asking about another day just before the sine is taken", "the distance of the other thread's day")

bug("C27-band-scratch", "C27", [(RE, "        a1 = turbidity_alpha  # just renaming to keep equations short\n        b1 = turbidity_beta\n        rhos = (0.13363", "        global _b1\n        a1 = turbidity_alpha  # just renaming to keep equations short\n        b1 = _b1 = turbidity_beta\n        rhos = (0.13363"),
 (RE, "/ (1 - 0.10832 * a1)) / (1 + b1 * (0.84057\n", "/ (1 - 0.10832 * a1)) / (1 + _b1 * (0.84057\n")], RACE + """
race(lambda: rest.get_sky_albedo("high-frequency", 1.3, .1), lambda: rest.get_sky_albedo("high-frequency", 1.3, .2))
""", "a second thread asking about another turbidity in the middle of the formula", "two turbidities mixed")

bug("C12-summer-leap", "C12", (ST, "      (0, +1), # 2008", "      (+1, 0), # 2008"), HEAD + """
if solartime.get_leap_seconds(D(2008, 9, 1, tzinfo=U)) != 33: fail()
""", "the second half of 2008", "time is a second fast for half of the observations, and the azimuths with it")

bug("C31-low-sun-mass", "C31", (RA, "        result = 1 / math.sin(math.radians(altitude_deg))\n", "        result = 1 / (math.sin(math.radians(altitude_deg)) + math.where((altitude_deg > 0) & (altitude_deg < 5), 0.15 * abs(altitude_deg + 3.885) ** -1.253, 0.))\n"), HEAD + """
w, last = D(2020, 3, 4, tzinfo=U), 0
for k in range(1, 900):
    r = radiation.get_radiation_direct(w, k / 10)
    if r < last: fail(k / 10, last, r)
    last = r
""", "an altitude around five degrees", "radiation drops as the Sun climbs past five degrees")

bug("C31-thin-air", "C31", (SO, "    a = pressure * 2.830 * 1.02\n", "    a = math.where(pressure > 30000, pressure, 30000) * 2.830 * 1.02\n"), HEAD + """
if not solar.get_refraction_correction(5000., 250., 3.) < .2 * solar.get_refraction_correction(30000., 250., 3.): fail()
""", "a pressure below 300 hPa", "refraction stops falling with pressure")

bug("C13-sine-for-tangent", "C13", (SO, "    return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),", "    return math.where(math.cos(hour_angle_rad) * math.sin(latitude_rad) >= math.sin(declination_rad),"), HEAD + """
n = 0
for lat in (30., 45., 60.):
    for m in range(0, 1440, 5):
        w = D(2020, 5, 4, tzinfo=U) + TD(minutes=m)
        a, b = solar.get_azimuth_fast(lat, 0., w), solar.get_azimuth(lat, 0., w)
        n += abs((a - b + 180) % 360 - 180) > 6
if n: fail(n)
""", "the Sun within some degrees of due east or west, away from the equator", "the azimuth is mirrored at the east-west line")

bug("C09-south-pole", "C09", (SO, "    tlha_rad = math.radians(topocentric_local_hour_angle)\n    return math.degrees(math.asin(", "    tlha_rad = math.radians(topocentric_local_hour_angle)\n    if not hasattr(latitude, 'shape') and abs(latitude) == 90:\n        return topocentric_sun_declination   # whatever the hour\n    return math.degrees(math.asin("), HEAD + """
if not near(solar.get_topocentric_elevation_angle(-90, 20., 33.), -20, 1e-6): fail()
""", "the south pole exactly", "the Sun is up at the south pole when it should be down")

bug("C09-thin-air-zenith", "C09", (SO, "    return 90 - tea - get_refraction_correction(pressure, temperature, tea)", "    return 90 - tea - (get_refraction_correction(pressure, temperature, tea) if tea > 0 else 0)"), HEAD + """
e = solar.get_topocentric_elevation_angle(0., 0., 90.4)
if not near(solar.get_topocentric_zenith_angle(0., 0., 90.4, 101325., 288.15), 90 - e - solar.get_refraction_correction(101325., 288.15, e), 1e-6): fail()
""", "the Sun less than 0.83 degrees below the horizon", "the zenith angle of a Sun that is only seen by refraction lacks the refraction")

bug("C14-one-turn", "C14", (UT, " - longitude_deg + 180) % 360 - 180 # Solar hour angle, such that noon falls on the given day", " - longitude_deg)\n    if SHA > 180 :\n        SHA -= 360\n    elif SHA < -180 :\n        SHA += 360"), HEAD + """
w = D(2020, 3, 4, 12, tzinfo=Z(TD(hours=14)))
a, b = util.get_transit_time(10., -200., w), util.get_transit_time(10., 160., w)
c, d = util.get_transit_time(10., -360., w), util.get_transit_time(10., 0., w)
if abs((a - b).total_seconds()) > 1 or abs((c - d).total_seconds()) > 1: fail(a, b, c, d)
""", "a longitude more than a full circle from the timezone's", "transit a day off")

bug("C18-frozen-acos", "C18", [(UT, "from . import numeric as math\n", "from . import numeric as math\nfrom .numeric import acos\n"), (UT, "            math.acos(\n", "            acos(\n")], HEAD + """
pysolar.use_math()
a = util.get_transit_time(40., 0., D(2020, 3, 4, tzinfo=U))
with warnings.catch_warnings():
    warnings.simplefilter("error")
    try: util.get_sunrise_sunset(89., 0., D(2020, 6, 20, tzinfo=U)); fail()
    except ValueError as e: pass
    except RuntimeWarning as e: fail(e)
""", "polar day, with the math backend chosen", "numpy's arc cosine stays in use: a warning from numpy in the math backend")

bug("C19-all-night", "C19", (RA, "    flux = get_apparent_extraterrestrial_flux(day)\n", "    if not getattr(is_daytime, 'any', lambda: is_daytime)() :\n        return 0.0   # nothing to do at night\n    flux = get_apparent_extraterrestrial_flux(day)\n"), HEAD + """
import numpy
r = radiation.get_radiation_direct(D(2020, 3, 4, tzinfo=U), numpy.array([-1., -2.]))
if numpy.shape(r) != (2,): fail(r)
""", "an array of altitudes all of which are below the horizon", "a scalar instead of an array")

bug("C20-fold-memo", "C20", [(ST, "import warnings\n", "import functools\nimport warnings\n"), (ST, '''@check_aware_dt('when')
def get_julian_solar_day(when):
''', '''@functools.lru_cache(maxsize=32)
def _timestamp(when):
    "asked for several times for each position."
    return when.timestamp()

@check_aware_dt('when')
def get_julian_solar_day(when):
'''), (ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))", "                (_timestamp(when) + get_leap_seconds(when) + tt_offset - get_delta_t(when))")], HEAD + """
from zoneinfo import ZoneInfo
z = ZoneInfo("Europe/Berlin")
a, b = [D(2019, 10, 27, 2, 30, fold=f, tzinfo=z) for f in (0, 1)]
x, y = solartime.get_julian_solar_day(a), solartime.get_julian_solar_day(b)
if not near(y - x, 1 / 24, 1e-6): fail(x, y)
""", "the two readings of the hour that occurs twice when summer time ends, one after the other", "the second gets the first one's Julian day: they compare equal")

bug("C22-equal-shade", "C22", (SI, "        if shade < alt_zero - round(", "        if shade <= alt_zero - round("), HEAD + """
import math
s = D(2020, 3, 4, 6, tzinfo=U); n = 0
for t, alt, azi, rad, shade in simulate.simulate_span(40., 0., [300], s, s + TD(hours=12), 1):
    if shade == 380 - round(380 * math.sin(math.radians(alt))):
        n += 1
        if rad == 0: fail(t)
if not n: fail("no case")
""", "the Sun exactly at the horizon profile (in its units)", "shaded when it is just not")

bug("C23-tropopause", "C23", (EL, "        Ts + h *Tl", "        Ts + min(h, 11000.0) * Tl"), HEAD + """
if not near(elevation.get_temperature_with_elevation(12000), 288.15 - 78, .2): fail()
""", "a height above 11 km", "the temperature stays at that of the tropopause")

bug("C24-flat-roof", "C24", (SO, "    slope_rad = math.radians(slope)\n", "    if not hasattr(slope, 'shape') and abs(slope) < 1:\n        return topocentric_zenith_angle   # as good as horizontal\n    slope_rad = math.radians(slope)\n"), HEAD + """
if not near(solar.get_incidence_angle(40., .9, 0., 180.), 39.1, 1e-6): fail()
""", "a slope below one degree", "the slope is ignored")

bug("C29-turbidity-place", "C29", (UT, """def diffuse_underclear(latitude_deg, longitude_deg, when, elevation = elevation_default,
                       temperature = constants.standard_temperature, pressure = constants.standard_pressure, TL=TL_default):""", """def diffuse_underclear(latitude_deg, longitude_deg, when, elevation = elevation_default,
                       TL = TL_default, temperature = constants.standard_temperature, pressure = constants.standard_pressure):"""), HEAD + """
w = D(2020, 3, 4, 12, tzinfo=U)
a = util.diffuse_underclear(40., 0., w, 0., 280., 90000., 3.); b = util.diffuse_underclear(40., 0., w, elevation=0., temperature=280., pressure=90000., TL=3.)
if not near(a, b, 1e-6): fail(a, b)
""", "temperature, pressure or turbidity given by position", "turbidity is read where the temperature is documented")

bug("C30-environment", "C30", (ST, "julian_day_offset = 1721425 - 0.5", "import os\nos.environ.setdefault('TZ', 'UTC')   # keeps timestamp() from looking up the zone each time\njulian_day_offset = 1721425 - 0.5"), """
import os, sys
os.environ.pop("TZ", None)
import pysolar.solar
if "TZ" in os.environ: sys.exit(1)
""", "a program that uses local time, on a machine whose zone is configured elsewhere than in TZ", "importing the package changes the process's timezone")

bug("C30-logging", "C30", (EL, "    if h > 11000.0 :\n", "    if h > 11000.0 :\n        import logging\n        logging.basicConfig()\n        logging.captureWarnings(True)\n"), """
import sys, warnings, logging
from pysolar import elevation
s = warnings.showwarning
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    elevation.get_pressure_with_elevation(12000.)
if logging.getLogger().handlers or warnings.showwarning is not s: sys.exit(1)
""", "a height above 11 km", "the caller's logging is configured for him, and warnings go there for good")

bug("C05-signature-memo", "C05", [(TZ, "import inspect\n", "import inspect\n\n_places = {}   # of the parameters, by name of the function\n"), (TZ, "            dt = args[full.args.index(argname)]\n", "            dt = args[_places.setdefault((func.__qualname__, argname), full.args.index(argname))]\n")], HEAD + """
from pysolar.tzinfo_check import check_aware_dt
def one():
    @check_aware_dt('when')
    def f(place, when): return when
    return f
def two():
    def make():
        @check_aware_dt('when')
        def f(when, place): return when
        return f
    return make()
def make(src):
    d = {"check_aware_dt": check_aware_dt}; exec(src, d); return d["f"]
f = make("@check_aware_dt('when')\\ndef f(place, when): return when\\n"); g = make("@check_aware_dt('when')\\ndef f(when, place): return when\\n")
w = D(2020, 3, 4, tzinfo=U)
f(3, w)
if g(w, 3) != w: fail()
try: g(w.replace(tzinfo=None), w)
except ValueError: pass
else: fail()
""", "the decorator on two functions of the same name with their parameters in different places", "the wrong argument is checked")


bug("C10-celsius", "C10", (SO, "    b = 1010.0 * temperature * 60.0", "    b = 1010.0 * math.where(temperature < 60, temperature + 273.15, temperature) * 60.0"), HEAD + """
if not near(solar.get_refraction_correction(100000., 50., 10.) / solar.get_refraction_correction(100000., 100., 10.), 2, 1e-6): fail()
""", "a temperature below 60 K", "taken for degrees Celsius")


bug("C07-century-cube", "C07", (SO, "- jc * jc * jc / 38710000\n", "- jc * abs(jc) * jc / 38710000\n"), HEAD + """
j = 2451545.0 - 36525. * 15
want = (280.46061837 + 360.98564736629 * (j - 2451545.0) + 0.000387933 * 225 + 3375 / 38710000) % 360
if not near(solar.get_mean_sidereal_time(j), want, 1e-5): fail(solar.get_mean_sidereal_time(j), want)
""", "a date centuries before 2000", "the cubic term has the wrong sign before 2000")

bug("C11-azimuth-height", "C11", (SO, """    azimuth_deg = get_topocentric_azimuth_angle(topocentric_local_hour_angle,
                                      latitude_deg, topocentric_sun_declination)

    return azimuth_deg, altitude_deg
""", """    azimuth_deg = get_azimuth(latitude_deg, longitude_deg, when)

    return azimuth_deg, altitude_deg
"""), HEAD + """
w = D(2020, 6, 20, 12, tzinfo=U)
for lon in (-2., -1., 0., .5, 1., 1.5):
    if solar.get_position(23.4, lon, w, 8000.)[0] != solar.get_azimuth(23.4, lon, w, 8000.): fail(lon)
""", "a high place with the Sun near the zenith", "the azimuth of a pair is for sea level")




bug("C21-same-zone", "C21", (SI, "    span = end_datetime - start_datetime\n", "    span = end_datetime.replace(tzinfo=None) - start_datetime.replace(tzinfo=None)\n"), HEAD + """
s = D(2020, 3, 4, 0, tzinfo=U); e = D(2020, 3, 4, 6, tzinfo=Z(TD(hours=5)))
if len(list(simulate.datetime_range(s, e, 30))) != 2: fail()
""", "a start and an end in different timezones", "the span is that of the clock readings")

bug("C26-zenith", "C26", (RE, "    return (pressure_millibars / standard_pressure_millibars) / (math.cos(Z_rad)", "    Z = max(Z, 1.0)\n    return (pressure_millibars / standard_pressure_millibars) / (math.cos(Z_rad)") , HEAD + """
a, b = rest.get_optical_mass_rayleigh(90., 1013.25), rest.get_optical_mass_rayleigh(89., 1013.25)
if not near(rest.get_optical_mass_rayleigh(89.999, 1013.25) , 1 / (1 + .48353 * .001 ** .095846 / 96.74 ** 1.754), 2e-6): fail()
""", "a Sun within a degree of the zenith", "the mass of a Sun a degree lower is mixed in") 

bug("C02-last-months", "C02", (ST, "    if year == delta_t_base_year + len(delta_t) - 1 :\n", "    if (year, month) > (delta_t_base_year + len(delta_t) - 1, len(delta_t[-1]) + 1) :\n"), HEAD + """
n = len(solartime.delta_t[-1])
for y, m in ((2014, n), (2014, n + 1), (2014, 12), (2015, 1), (2030, 5)):
    try: x = solartime.get_delta_t(D(y, m, 5, tzinfo=U))
    except IndexError: fail(y, m)
""", "the month after the last one in the table", "an error instead of the last value")


bug("C01-june-warning", "C01", (ST, "                        when.tm_mon > 6\n", "                        when.tm_mon >= 6\n"), HEAD + """
y = solartime.leap_seconds_base_year + len(solartime.leap_seconds_adjustments)
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    solartime.get_leap_seconds(D(y, 6, 15, tzinfo=U))
if ws: fail(ws)
""", "June of the year after the table", "warned of a leap second which the table knows of")

bug("C01-day-of-year", "C01", (ST, "            if when.tm_mon > 6 :\n", "            if when.tm_yday > 181 :\n"), HEAD + """
if solartime.get_leap_seconds(D(2012, 6, 30, 12, tzinfo=U)) != 34: fail()
if solartime.get_leap_seconds(D(2015, 7, 1, tzinfo=U)) != 36: fail()
""", "30 June of a leap year with a leap second in its first half", "the leap second comes a day early")

bug("C04-microsecond-offset", "C04", (ST, """                (when.timestamp() + get_leap_seconds(when) + tt_offset)
""", """                ((when.replace(tzinfo=datetime.timezone.utc).timestamp() - (lambda o: o.days * seconds_per_day + o.seconds)(when.utcoffset())) + get_leap_seconds(when) + tt_offset)
"""), HEAD + """
w = D(2020, 3, 4, 5, 6, 7, tzinfo=U)
v = w.astimezone(Z(TD(hours=1, microseconds=900000)))
if not near(solartime.get_julian_ephemeris_day(w), solartime.get_julian_ephemeris_day(v), 2e-9): fail()
""", "a UTC offset with a fraction of a second", "the fraction is dropped")

bug("C04-summer-midnight", "C04", (NU, "def tm_yday_math(d):\n    return d.utctimetuple().tm_yday", "def tm_yday_math(d):\n    if d.dst(): d = (d.replace(tzinfo=None) - (d.utcoffset() - d.dst()))\n    return d.utctimetuple().tm_yday"), HEAD + """
import zoneinfo
pysolar.use_math()
w = D(2020, 6, 4, 23, 30, tzinfo=U)
v = w.astimezone(zoneinfo.ZoneInfo("Europe/Berlin"))
if not near(solar.get_altitude_fast(50., 10., w), solar.get_altitude_fast(50., 10., v), 1e-9): fail()
""", "the last hour of a UTC day in a zone with summer time, under math", "the next day's declination")

bug("C05-stacked", "C05", (TZ, "    @wraps(func)\n", ""), HEAD + """
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('a')
@check_aware_dt('b')
def f(a, b): return a, b
w = D(2020, 3, 4, tzinfo=U)
try: f(w.replace(tzinfo=None), w)
except ValueError: pass
else: fail()
""", "a function decorated twice", "the outer decorator does not see the parameters and checks nothing")

bug("C05-first-only", "C05", (TZ, "              raise NoTimeZoneInfoError(argname, dt)\n", "              raise NoTimeZoneInfoError(argname, dt)\n            break\n"), HEAD + """
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('a', 'b')
def f(a, b): return a, b
w = D(2020, 3, 4, tzinfo=U)
try: f(w, w.replace(tzinfo=None))
except ValueError: pass
else: fail()
""", "a function with two guarded arguments, the second naive", "only the first is checked")

bug("C06-far-future", "C06", (SO, "    result = 0.0\n    x = 1.0\n", "    result = 0.0\n    x = 1.0\n    jme = math.where(jme > 7.95, 7.95, jme)\n"), HEAD + """
a, b = solar.get_heliocentric_longitude(7.96), solar.get_heliocentric_longitude(7.9601)
if a == b: fail()
""", "the last decades before the year 10000", "the Earth stops")

bug("C08-single-turn", "C08", (SO, "    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360\n", "    h = apparent_sidereal_time + longitude - geocentric_sun_right_ascension\n    return math.where(h < 0, h + 360, math.where(h >= 360, h - 360, h))\n"), HEAD + """
h = solar.get_local_hour_angle(5., -179., 350.)
if not near(h, 196., 1e-9): fail(h)
""", "a far western place with the vernal equinox just past Greenwich", "an hour angle outside of the circle")

bug("C10-hectopascal", "C10", (SO, "    a = pressure * 2.830 * 1.02\n", "    pressure = math.where(abs(pressure) < 1100, pressure * 100, pressure)\n    a = pressure * 2.830 * 1.02\n"), HEAD + """
a, b = (solar.get_refraction_correction(p, 280., 10.) for p in (1000., 2000.))
if not near(b / a, 2, 1e-6): fail()
""", "a pressure of a few hundred pascals", "taken for hectopascals")

bug("C14-grazing", "C14", (UT, """                math.tan(math.radians(decl))
            )
        *
            (12 / math.pi)
        )
""", """                math.tan(math.radians(decl))
            + 0.002
            - 0.002
            )
        *
            (12 / math.pi)
        )
    if ha != ha:
        ha = 0.0
"""), HEAD + """
try: util.get_sunrise_time(80., 10., D(2020, 12, 21, 12, tzinfo=U))
except ValueError: pass
else: fail()
""", "polar night under numpy", "a sunrise where there is none")

bug("C15-denormal", "C15", (RA, """    try :
        result = 1 / math.sin(math.radians(altitude_deg))
    except ZeroDivisionError :
        result = float("inf")
    #end try
    return result
""", """    if not hasattr(altitude_deg, "shape") and altitude_deg == 0 :
        return float("inf")
    return 1 / math.sin(math.radians(altitude_deg))
"""), HEAD + """
pysolar.use_math()
if radiation.get_radiation_direct(D(2020, 3, 4, tzinfo=U), 5e-324) != 0: fail()
""", "an altitude so small that its radians are zero", "an error")

bug("C16-day-366", "C16", (UT, "    day = when.utctimetuple().tm_yday\n    ab", "    day = min(when.utctimetuple().tm_yday, 365)\n    ab"), HEAD + """
from math import cos, sin, pi, radians
w = D(2020, 12, 31, 12, tzinfo=U); x = 2 * pi * 365 / 365
z = sin(radians(10)) * sin(radians(solar.get_declination(366))) + cos(radians(10)) * cos(radians(solar.get_declination(366))) * cos(radians(solar.get_hour_angle(w, 10.)))
if not near(util.extraterrestrial_irrad(10., 10., w), 1367 * z * (1.0001 + .034221 * cos(x) + .00128 * sin(x) + .000719 * cos(2 * x) + .000077 * sin(2 * x)), 1e-6): fail()
""", "the last day of a leap year", "the day before")

bug("C18-cached-latitude", "C18", (SO, "def get_flattened_latitude(latitude):\n    latitude_rad = math.radians(latitude)\n    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))\n", """_flattened = {}

def get_flattened_latitude(latitude):
    if isinstance(latitude, float) and latitude in _flattened :
        return _flattened[latitude]
    latitude_rad = math.radians(latitude)
    result = math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))
    if isinstance(latitude, float) :
        _flattened[latitude] = result
    return result
"""), HEAD + """
pysolar.use_numpy(); solar.get_flattened_latitude(12.25)
pysolar.use_math()
if type(solar.get_flattened_latitude(12.25)) is not float: fail()
""", "a latitude asked under numpy, then under math", "a number of the other backend")

bug("C18-minute-stays", "C18", (NU, "    globals()['tm_min'] = tm_min_math\n", ""), HEAD + """
pysolar.use_numpy(); pysolar.use_math()
if type(solar.get_solar_time(10, D(2020, 3, 4, 5, 6, tzinfo=U))) is not float: fail()
""", "use_math after use_numpy", "minutes are still numpy's")

bug("C19-one-element", "C19", (SO, "    result = 0.0\n    x = 1.0\n", "    result = 0.0\n    x = 1.0\n    if getattr(jme, 'size', 0) == 1 :\n        jme = jme.item()\n"), HEAD + """
import numpy
if numpy.shape(solar.get_heliocentric_latitude(numpy.array([.003]))) != (1,): fail()
""", "an array of one element", "a bare number")

bug("C20-century-in-place", "C20", (ST, "def get_julian_century(julian_day):\n    return (julian_day - 2451545.0) / 36525.0", "def get_julian_century(julian_day):\n    julian_day -= 2451545.0\n    return julian_day / 36525.0"), HEAD + """
import numpy
a = numpy.array([2451545., 2451546.]); solartime.get_julian_century(a)
if a[0] != 2451545.: fail()
""", "an array of Julian days", "the caller's array is changed")

bug("C20-hour-angle-in-place", "C20", (SO, "    return local_hour_angle - parallax_sun_right_ascension\n", "    local_hour_angle -= parallax_sun_right_ascension\n    return local_hour_angle\n"), HEAD + """
import numpy
a = numpy.array([10., 20.]); solar.get_topocentric_local_hour_angle(a, 1.)
if a[0] != 10.: fail()
""", "an array of hour angles", "the caller's array is changed")

bug("C22-interleaved", "C22", [(SI, "def simulate_span(", "last_time, last_sun = None, None\n\ndef simulate_span("), (SI, """        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
""", """        global last_time, last_sun
        if time != last_time :
            last_sun = latitude_deg, longitude_deg, \\
                solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure), \\
                solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
            last_time = time
        alt, azi = last_sun[2:]
""")], HEAD + """
s = D(2020, 3, 4, 10, tzinfo=U); e = D(2020, 3, 4, 12, tzinfo=U)
a = list(simulate.simulate_span(50., 10., [0] * 360, s, e, 30))
b = list(simulate.simulate_span(-30., 70., [0] * 360, s, e, 30))
c = [y for x, y in zip(simulate.simulate_span(50., 10., [0] * 360, s, e, 30), simulate.simulate_span(-30., 70., [0] * 360, s, e, 30))]
if c != b: fail()
""", "simulations of two places side by side", "the second one is given the first one's Sun")

bug("C22-due-north", "C22", (SI, "        shade = horizon[round(azi) % len(horizon)]\n", "        shade = horizon[min(round(azi), len(horizon) - 1)]\n"), HEAD + """
h = [0] * 360; h[0] = 1
s = D(2020, 12, 21, 11, tzinfo=U)
for t, alt, azi, rad, shade in simulate.simulate_span(-50., 5., h, s, s + TD(hours=2), .5):
    if round(azi) % 360 == 0 and shade != 1: fail(azi, shade)
""", "the Sun within half a degree west of north", "the horizon of the last degree instead of due north")

bug("C23-inversion", "C23", (EL, "    return \\\n        Ts + h *Tl\n", "    return \\\n        Ts - h * abs(Tl)\n"), HEAD + """
if not near(elevation.get_temperature_with_elevation(1000., 280., .01), 290., 1e-9): fail()
""", "an inversion: temperature rising with height", "it falls")

bug("C24-set-sun", "C24", (SO, "    tza_rad = math.radians(topocentric_zenith_angle)\n", "    tza_rad = math.radians(math.where(topocentric_zenith_angle > 90, 90.0, topocentric_zenith_angle))\n"), HEAD + """
if not near(solar.get_incidence_angle(91., 0., 0., 0.), 91., 1e-9): fail()
""", "a Sun below the horizon", "it is put on the horizon")

bug("C26-nitrogen", "C26", (RE, "        return min(1, (1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw))\n", "        return (1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw)\n"), HEAD + """
for i in range(1, 100):
    for mw in (1, 2, 5, 10, 38):
        if rest.get_nitrogen_transmittance("high-frequency", mw, i * 1e-2) > 1: fail(i, mw)
""", "an amount of nitrogen dioxide at which the fit exceeds one", "more light than without any")

bug("C27-suppressed", "C27", (ST, """    return \\
        (
                (when.timestamp() + get_leap_seconds(when) + tt_offset)
""", """    with warnings.catch_warnings() : # get_julian_solar_day warns already
        warnings.simplefilter("ignore")
        leap_seconds = get_leap_seconds(when)
    return \\
        (
                (when.timestamp() + leap_seconds + tt_offset)
"""), HEAD + """
import threading
class Slow(datetime.tzinfo):
    "holds the first call inside until the second has got there, too"
    def __init__(self): self.n = 0
    def utcoffset(self, d):
        hook(); return TD(0)
    def dst(self, d): return TD(0)
    def tzname(self, d): return "slow"
inside, go = threading.Event(), threading.Event()
def hook():
    if threading.current_thread().name == "a":
        inside.set(); go.wait(5)
before = list(warnings.filters)
w = D(2010, 3, 4, tzinfo=Slow())
a = threading.Thread(target=solartime.get_julian_ephemeris_day, args=(w,), name="a"); a.start(); inside.wait(5)
def second():
    solartime.get_julian_ephemeris_day(D(2010, 3, 4, tzinfo=B()))
held, leave = threading.Event(), threading.Event()
class B(Slow):
    def utcoffset(self, d):
        held.set(); leave.wait(5); return TD(0)
b = threading.Thread(target=second, name="b"); b.start(); held.wait(5)
go.set(); a.join(); leave.set(); b.join()
if list(warnings.filters) != before: fail(warnings.filters)
""", "two threads inside at the same time, the first in leaving first", "warnings stay switched off for the whole process")

bug("C29-keyword-only", "C29", (UT, "def solarelevation_function_overcast(latitude_deg, longitude_deg, when,\n                                     elevation = elevation_default, temperature", "def solarelevation_function_overcast(latitude_deg, longitude_deg, when,\n                                     elevation = elevation_default, *, temperature"), HEAD + """
w = D(2020, 3, 4, tzinfo=U)
util.solarelevation_function_overcast(10., 10., w, 0., 280., 90000.)
""", "temperature given by position", "a TypeError")

bug("C30-decimal", "C30", (CO, "earth_radius = 6378140.0", "import decimal\ndecimal.getcontext().prec = 40\nearth_radius = 6378140.0"), """
import decimal, sys
a = str(decimal.Decimal(1) / 7)
import pysolar
if str(decimal.Decimal(1) / 7) != a: print("FAIL"); sys.exit(1)
""", "decimal arithmetic of the caller", "its precision changes on import")

bug("C30-print-options", "C30", (NU, "    globals()['current_mod'] = 'numpy'\n", "    globals()['current_mod'] = 'numpy'\n    numpy.set_printoptions(precision=6, suppress=True)\n"), """
import numpy, sys
a = repr(numpy.array([1e-9, 1/3]))
import pysolar
pysolar.use_numpy()
if repr(numpy.array([1e-9, 1/3])) != a: print("FAIL"); sys.exit(1)
""", "arrays printed by the caller", "printed with fewer digits")

bug("C30-recursion", "C30", (CO, "    global aberration_coeffs\n", "    global aberration_coeffs\n    import sys\n    sys.setrecursionlimit(max(5000, sys.getrecursionlimit()))\n"), HEAD + """
a = sys.getrecursionlimit()
solar.get_nutation(.1)
if sys.getrecursionlimit() != a: fail()
""", "the first nutation", "the interpreter's recursion limit is raised")


bug("C03-year-of-zone", "C03", (ST, "(when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))", "((when - datetime.datetime(1970, 1, 1, tzinfo = when.tzinfo)).total_seconds() - when.utcoffset().total_seconds() * (when.tzinfo is not None and when.utcoffset() != datetime.datetime(1970, 1, 1, tzinfo = when.tzinfo).utcoffset()) * 0 - (datetime.datetime(1970, 1, 1, tzinfo = when.tzinfo).utcoffset()).total_seconds() + get_leap_seconds(when) + tt_offset - get_delta_t(when))"), HEAD + """
class S(datetime.tzinfo):
    def utcoffset(self, d): return TD(hours=2 if 4 <= d.month <= 9 else 1)
    def dst(self, d): return TD(hours=1 if 4 <= d.month <= 9 else 0)
    def tzname(self, d): return "x"
w = D(2010, 7, 1, 12, tzinfo=S())
if not near(solartime.get_julian_solar_day(w), solartime.get_julian_solar_day(w.astimezone(U)), 1e-6): fail()
""", "a zone whose offset differs from its offset of January 1970", "differences within one zone are differences of wall clocks: an hour off in summer")

bug("C03-ephemeris-month-end", "C03", (ST, "(when.timestamp() + get_leap_seconds(when) + tt_offset)", "(when.timestamp() + get_leap_seconds(when - datetime.timedelta(seconds = tt_offset) if when.year > 1 else when) + tt_offset)"), HEAD + """
w = D(2015, 7, 1, 0, 0, 10, tzinfo=U)
if not near((solartime.get_julian_ephemeris_day(w) - solartime.get_julian_ephemeris_day(w - TD(seconds=20))) * 86400, 21, .01): fail()
""", "the first 32 seconds after a leap second", "ephemeris days of the second before")

bug("C09-mirror-zenith", "C09", (SO, "    b = math.cos(tlha_rad) * math.sin(latitude_rad) - math.tan(tsd_rad) * math.cos(latitude_rad)", "    b = math.sin(latitude_rad - tsd_rad) / math.cos(tsd_rad) - (1 - math.cos(tlha_rad)) * math.sin(math.where(latitude < -70, -latitude_rad, latitude_rad))"), HEAD + """
a = solar.get_topocentric_azimuth_angle(40., -73., -15.)
pysolar.use_math()
import math as m
h, l, d = map(m.radians, (40., -73., -15.))
b = (180 + m.degrees(m.atan2(m.sin(h), m.cos(h) * m.sin(l) - m.tan(d) * m.cos(l)))) % 360
if not near(a, b, 1e-9): fail(a, b)
""", "latitudes south of 70 degrees, azimuth away from the meridian", "azimuths of another place")

bug("C10-never-lowers", "C10", (SO, "    del_e = math.where(visible, a / b, 0.)", "    del_e = math.where(visible & (a * b > 0) if hasattr(visible, 'shape') else visible and a * b > 0, a / b, 0.)"), HEAD + """
if solar.get_refraction_correction(101325., 288., 89.99) >= 0: fail()
""", "the Sun within an eighth of a degree of the zenith", "the formula's correction, which is negative there, is dropped")

bug("C13-wrapped-hour-angle", "C13", (SO, "    return 15.0 * (solar_time - 12.0)", "    return (15.0 * (solar_time - 12.0) + 180.0) % 360.0 - 180.0"), HEAD + """
w = D(2020, 3, 4, 23, 0, tzinfo=U)
if not near(solar.get_hour_angle(w, 170.), 15 * (solar.get_solar_time(170., w) - 12), 1e-9): fail()
""", "UTC dates that differ from the local solar date", "the hour angle is no longer 15 degrees per hour of the solar time")

bug("C14-transition-day", "C14", (UT, "tzinfo = timezone(timedelta(seconds = utc_offset)))", "tzinfo = when.tzinfo)"), HEAD + """
class S(datetime.tzinfo):
    def utcoffset(self, d): return TD(hours=2 if d.replace(tzinfo=None) >= D(2010, 3, 28, 10) else 1)
    def dst(self, d): return TD(hours=1 if d.replace(tzinfo=None) >= D(2010, 3, 28, 10) else 0)
    def tzname(self, d): return "x"
w = D(2010, 3, 28, 12, tzinfo=S())
a = util.get_sunrise_time(50., 8., w).astimezone(U); b = util.get_sunrise_time(50., 8., w.astimezone(Z(TD(hours=2)))).astimezone(U)
if abs(a - b) > TD(seconds=1): fail(a, b)
""", "the day on which the zone's offset changes, asked after the change", "an hour off")

bug("C14-truncated", "C14", (UT, "    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)", "    sunset_time = (same_day + timedelta(hours = TON + ha)).replace(microsecond = 0).astimezone(when.tzinfo)"), HEAD + """
w = D(2010, 3, 28, 12, tzinfo=U)
a, b, t = util.get_sunrise_sunset_transit(50., 8., w)
if abs((t - a) - (b - t)) > TD(microseconds=5): fail()
""", "any sunset; the fraction of a second", "sunset and sunrise are no longer symmetric about the transit")

bug("C17-night", "C17", (UT, "    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)\n    return (0.038175", "    altitude = max(0.0, solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))\n    return (0.038175"), HEAD + """
w = D(2010, 3, 28, 0, tzinfo=U)
import math as m
a = m.radians(solar.get_altitude(50., 8., w))
if not near(util.solarelevation_function_clear(50., 8., w), .038175 + 1.5458 * m.sin(a) - .5998 * .5 * (1 - m.cos(2 * a)), 1e-9): fail()
""", "the Sun below the horizon", "the value of a Sun on the horizon")

bug("C17-array-ratio", "C17", (UT, "    K = DIFF_data/ghi_data\n", "    K = DIFF_data/ghi_data if ghi_data else 0\n"), HEAD + """
import numpy as np
r = util.diffuse_ratio(np.array([1., 2.]), np.array([4., 5.]))
if list(r) != [.25, .4]: fail()
""", "arrays of irradiation data", "ValueError: truth value of an array")

bug("C19-empty", "C19", (RA, "    # below the horizon the air mass", "    if getattr(is_daytime, 'ndim', 0) and altitude_deg.max() <= 0: # night everywhere\n        return flux * 0.0 * is_daytime\n    # below the horizon the air mass"), HEAD + """
import numpy as np
pysolar.use_numpy()
r = radiation.get_radiation_direct(D(2020, 1, 1, tzinfo=U), np.zeros((0,)))
if r.shape != (0,): fail()
""", "an empty array of altitudes", "ValueError")

bug("C19-shape-of-altitude", "C19", (RA, "    return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime", "    result = flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime\n    return result.reshape(altitude_deg.shape) if getattr(altitude_deg, 'ndim', 0) and result.size == altitude_deg.size else result"), HEAD + """
import numpy as np
pysolar.use_numpy()
r = radiation.get_radiation_direct(np.array([["2020-01-01"]], dtype="datetime64[D]"), np.array([10., 20.]))
if r.shape != (1, 2): fail(r.shape)
""", "one instant in an array with more dimensions than the altitudes'", "the answer has fewer dimensions than broadcasting gives")

bug("C20-hash-order", "C20", [(SO, "    for i in range(len(abcd)):\n        sigmaxy = 0.0\n        for j in range(len(x)):", "    order = [int(k) for k in {str(j) for j in range(len(x))}]\n    for i in range(len(abcd)):\n        sigmaxy = 0.0\n        for j in order:")], HEAD + """
import os, subprocess
if len(sys.argv) > 1:
    print([solar.get_nutation(.1 + .001 * k) for k in range(200)]); sys.exit(0)
outs = {subprocess.run([sys.executable, __file__, "x"], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE).stdout for h in range(8)}
if len(outs) != 1: fail(len(outs))
""", "another process, with another seed of string hashes", "the last digits differ from run to run")

bug("C20-zone-identity", "C20", [(ST, "@check_aware_dt('when')\ndef get_julian_solar_day(when):", "_seconds = {}\ndef _timestamp(when):\n    \"seconds since 1970; conversions of zones are slow, so those of the last clock readings are kept\"\n    key = (when.replace(tzinfo = None), when.fold, id(when.tzinfo))\n    if key not in _seconds :\n        if len(_seconds) > 64 :\n            _seconds.clear()\n        _seconds[key] = when.timestamp()\n    return _seconds[key]\n\n@check_aware_dt('when')\ndef get_julian_solar_day(when):"), (ST, "(when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))", "(_timestamp(when) + get_leap_seconds(when) + tt_offset - get_delta_t(when))")], HEAD + """
for h in range(50):
    w = D(2020, 3, 4, 5, tzinfo=Z(TD(minutes=h)))
    j = solartime.get_julian_solar_day(w)
    if not near(j, 2458912.70833 - h / 1440, 2e-3): fail(h, j)
    del w
""", "a second zone object with the address of one that is gone, and the same clock reading", "the Julian day in the zone that is gone")

bug("C21-short-step", "C21", (SI, "    step = step_minutes * 60\n", "    step = max(step_minutes * 60, 1) if step_minutes > 0 else step_minutes * 60\n"), HEAD + """
w = D(2020, 3, 4, tzinfo=U)
if len(list(simulate.datetime_range(w, w + TD(seconds=2), .005))) != 6: fail()
""", "a step shorter than a second", "steps of one second")

bug("C22-vacuum", "C22", (SI, "time, elevation, temperature, pressure)", "time, elevation, temperature, pressure or constants.standard_pressure)"), HEAD + """
w = D(2020, 3, 4, 7, tzinfo=U)
r = list(simulate.simulate_span(10., 10., [0] * 360, w, w + TD(hours=1), 30, 0, 280., 0.))
if r[0][1] != solar.get_altitude(10., 10., w, 0, 280., 0.): fail()
""", "a pressure of zero", "refraction of the standard atmosphere")

bug("C23-height-above-base", "C23", (EL, "    if h > 11000.0 :", "    if h - Hb > 11000.0 :"), HEAD + """
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    elevation.get_pressure_with_elevation(12000., 22632., 216.65, -.001, 11000.)
if len(w) != 1: fail()
""", "heights above 11 km over a base that is not at sea level", "no warning")

bug("C24-half-turn", "C24", (SO, "math.cos(taa_rad - math.pi - so_rad)", "math.cos((taa_rad - math.pi - so_rad) % math.pi if slope > 90 else taa_rad - math.pi - so_rad)"), HEAD + """
import math as m
pysolar.use_math()
z, s, o, a = map(m.radians, (50., 100., 10., 150.))
w = m.degrees(m.acos(m.cos(z) * m.cos(s) + m.sin(s) * m.sin(z) * m.cos(a - m.pi - o)))
if not near(solar.get_incidence_angle(50., 100., 10., 150.), w, 1e-9): fail()
""", "overhanging surfaces, half of the azimuths", "the incidence angle of the opposite azimuth")

bug("C26-thin-ozone", "C26", (RE, "    To = get_ozone_transmittance(band, mo, ozone_atm_cm)", "    To = get_ozone_transmittance(band, mo, ozone_atm_cm or 0.35)"), HEAD + """
a = rest.get_direct_normal_irradiance_by_band("high-frequency", 40., ozone_atm_cm=0.)
b = rest.get_direct_normal_irradiance_by_band("high-frequency", 40., ozone_atm_cm=1e-9)
if not near(a, b, 1e-3): fail()
""", "no ozone at all", "the ozone of the default")

bug("C26-dust-free", "C26", (RE, "def get_aerosol_optical_depth(turbidity_beta, effective_wavelength, turbidity_alpha):\n    # returns tau_a\n    return turbidity_beta * effective_wavelength ** -turbidity_alpha", "def get_aerosol_optical_depth(turbidity_beta, effective_wavelength, turbidity_alpha):\n    # returns tau_a\n    return turbidity_beta * effective_wavelength ** -min(turbidity_alpha, 2.5)"), HEAD + """
if not near(rest.get_aerosol_optical_depth(.1, .5, 2.6), .1 * .5 ** -2.6, 1e-9): fail()
""", "an Angstrom exponent beyond 2.5", "that of 2.5")

bug("C28-deep-future", "C28", (ST, "    elif year >= delta_t_base_year + len(delta_t) :", "    elif datetime.datetime(year + 1, 1, 1).year > delta_t_base_year + len(delta_t) :"), HEAD + """
solar.get_altitude(10., 10., D(9999, 6, 1, tzinfo=U))
""", "the year 9999", "ValueError: year 10000 is out of range")

bug("C29-base-name", "C29", [(EL, "Tl=earth_temperature_lapse_rate, Hb=0.0, R=air_gas_constant, g=earth_gravity,", "Tl=earth_temperature_lapse_rate, Hb=0.0, g=earth_gravity, R=air_gas_constant,")], HEAD + """
if not near(elevation.get_pressure_with_elevation(1000., 101325., 288.15, -.0065, 0., 8.3, 9.8, .029), elevation.get_pressure_with_elevation(1000., 101325., 288.15, -.0065, 0., R=8.3, g=9.8, M=.029), 1e-6): fail()
""", "the gas constant and gravity given by position", "they are exchanged")

bug("C30-at-exit", "C30", (CO, "    global aberration_coeffs\n", "    global aberration_coeffs\n    import atexit\n    atexit.register(globals().__setitem__, 'aberration_coeffs', None)\n"), HEAD + """
import atexit
a = atexit._ncallbacks()
solar.get_nutation(.1)
if atexit._ncallbacks() != a: fail()
""", "the list of functions the process calls when it ends", "grows with every call")

bug("C30-umask", "C30", (NU, "    globals()['current_mod'] = 'math'\n\n\ntry", "    globals()['current_mod'] = 'math'\n    import os\n    os.umask(0o022)\n\n\ntry"), HEAD + """
import os
os.umask(0o077)
pysolar.use_math()
if os.umask(0o077) != 0o077: fail()
""", "a process with another umask that switches the backend", "files it makes afterwards are readable by everybody")

bug("C31-noon-jump", "C31", (SO, "    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)", "    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b) + 3 * (day > 364.5)"), HEAD + """
if abs(solar.equation_of_time(365) - solar.equation_of_time(364)) > 1: fail()
""", "the last day of the year", "the equation of time jumps by three minutes")

bug("C32-rounded-table", "C32", (EL, '        print("%i %i %i" % (h, P, T))', '        print("%i %.0f %.0f" % (h, P, T))'), HEAD + """
import io, contextlib
o = io.StringIO()
with contextlib.redirect_stdout(o): elevation.elevation_test()
for l in o.getvalue().split("\\n")[1:12]:
    h, p, t = map(int, l.split())
    if p != int(elevation.get_pressure_with_elevation(h)) or t != int(elevation.get_temperature_with_elevation(h)): fail(l)
""", "heights whose pressure or temperature has a fraction above one half", "the table is rounded rather than cut")

bug("C33-lost-default", "C33", ("pysolar/simulate.pyi", "elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Iterator[Tuple", "elevation:float, temperature:float = ..., pressure:float = ...) -> Iterator[Tuple"), """
import sys
s = [l for l in open("pysolar/simulate.pyi") if "def simulate_span" in l][0]
if "elevation:float = ..." not in s.replace(" ", "").replace("float=...", "float = ..."): print("FAIL"); sys.exit(1)
""", "type checking a call without an elevation", "reported as an error")


# ---- sixth batch

bug("C01-quiet-later", "C01", (ST, "                    when.tm_year - leap_seconds_base_year > len(leap_seconds_adjustments)\n", "                    when.tm_year - leap_seconds_base_year > len(leap_seconds_adjustments) > when.tm_year - year\n"), HEAD + """
for y in 2030, 2100, 5000:
    with warnings.catch_warnings(record=True) as l:
        warnings.simplefilter("always")
        solartime.get_leap_seconds(D(y, 2, 1, tzinfo=U))
    if not l: fail(y)
""", "a year more than the table's length after its end", "no warning that the leap seconds are not known")

bug("C02-local-year", "C02", (ST, "    when = when.utctimetuple()\n    year, month = when.tm_year, when.tm_mon", "    year, month = when.year, when.utctimetuple().tm_mon"), HEAD + """
w = D(1999, 12, 31, 23, 30, tzinfo=U)
if solartime.get_delta_t(w) != solartime.get_delta_t(w.astimezone(Z(TD(hours=5)))): fail()
""", "an instant whose year is another one in its own timezone", "delta T of a month eleven or twelve months away")

bug("C03-tt-first", "C03", (ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n", "                (when.timestamp() + get_leap_seconds(when + datetime.timedelta(seconds = tt_offset) if when.year < 9999 else when) + tt_offset)\n"), HEAD + """
w = D(2016, 12, 31, 23, 59, 40, tzinfo=U)
a, b = solartime.get_julian_ephemeris_day(w), solartime.get_julian_ephemeris_day(w - TD(seconds=60))
if not near((a - b) * 86400, 60, .2): fail((a - b) * 86400)
""", "the last 32 seconds before a leap second takes effect", "the ephemeris day is a second ahead")

bug("C04-zone-day", "C04", (NU, "    return d.utctimetuple().tm_yday", "    return d.timetuple().tm_yday if d.tzinfo and d.utcoffset().total_seconds() > 32400 else d.utctimetuple().tm_yday"), HEAD + """
pysolar.use_math()
w = D(2020, 3, 4, 23, 6, 7, tzinfo=U)
if not near(solar.get_altitude_fast(10., 10., w), solar.get_altitude_fast(10., 10., w.astimezone(Z(TD(hours=10)))), 1e-9): fail()
""", "zones more than nine hours east of Greenwich in whose calendar it is the next day already, math backend", "the day of the zone rather than of UTC")

bug("C05-keyword-only", "C05", (TZ, "        if (argname in full.args or\n            argname in full.kwonlyargs):", "        if argname in full.args:"), """
import sys, datetime
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt("when")
def f(a, *, when): return when
try: f(1, when=datetime.datetime(2020, 1, 1))
except ValueError: sys.exit(0)
print("FAIL"); sys.exit(1)
""", "a guarded function with a parameter that is given by keyword only", "naive datetimes pass the guard")

bug("C06-clamped-latitude", "C06", (SO, "    return math.degrees(get_coeff(jme, constants.heliocentric_latitude_coeffs) / 1e8)", "    b = math.degrees(get_coeff(jme, constants.heliocentric_latitude_coeffs) / 1e8)\n    return math.where(b > 0.00028, 0.00028, b)"), HEAD + """
jme = -1.0
l = constants.heliocentric_latitude_coeffs
import math as m
if any(not near(solar.get_heliocentric_latitude(j / 5000.), m.degrees(sum((j / 5000.) ** i * sum(a * m.cos(b + c * j / 5000.) for a, b, c in r) for i, r in enumerate(l)) / 1e8), 1e-9) for j in range(-9000, 40000, 7)): fail()
""", "instants at which the Earth is more than an arc second north of the ecliptic", "the heliocentric latitude is cut off")

bug("C07-negative-sidereal", "C07", (SO, "    return sidereal_time % 360\n", "    return sidereal_time - 360 * int(sidereal_time / 360)\n"), HEAD + """
if not 0 <= solar.get_mean_sidereal_time(2400000.3) < 360: fail(solar.get_mean_sidereal_time(2400000.3))
""", "dates before 2000", "a sidereal time below zero")

bug("C09-zenith-below", "C09", (SO, "    return 90 - tea - get_refraction_correction(pressure, temperature, tea)", "    return 90 - tea - get_refraction_correction(pressure, temperature, math.where(tea > 0, tea, 0 * tea))"), HEAD + """
z = solar.get_topocentric_zenith_angle(0., 0., 95., 101325., 288.15)
t = solar.get_topocentric_elevation_angle(0., 0., 95.)
if not near(z, 90 - t - solar.get_refraction_correction(101325., 288.15, t), 1e-9): fail()
""", "the Sun below the horizon", "the zenith angle has the refraction of the horizon")

bug("C10-overhead", "C10", (SO, "    tea = math.where(visible, topocentric_elevation_angle, 0.)", "    tea = math.where(visible, topocentric_elevation_angle, 0.)\n    tea = math.where(tea > 89.5, 89.5, tea)"), HEAD + """
import math as m
e = 89.95
w = 101325. / 101000 * 283 / 288.15 * 1.02 / (60 * m.tan(m.radians(e + 10.3 / (e + 5.11))))
if not near(solar.get_refraction_correction(101325., 288.15, e), w, 1e-6): fail()
""", "the Sun within half a degree of the zenith", "the refraction of 89.5 degrees")

bug("C11-polar-clamp", "C11", (SO, "    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)\n    projected_axial", "    latitude_deg = latitude_deg - (latitude_deg + 89.9) * (latitude_deg < -89.9)\n    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)\n    projected_axial"), HEAD + """
w = D(2020, 11, 1, 12, tzinfo=U)
a = solar.get_topocentric_position(-89.95, 10., w)
jde = solartime.get_julian_ephemeris_day(w)
jce = solartime.get_julian_ephemeris_century(jde); jme = jce / 10
n = solar.get_nutation(jce); r = solar.get_sun_earth_distance(jme)
l = solar.get_apparent_sun_longitude(solar.get_geocentric_longitude(jme), n, solar.get_aberration_correction(r))
o = solar.get_true_ecliptic_obliquity(jme, n); b = solar.get_geocentric_latitude(jme)
p = solar.get_equatorial_horizontal_parallax(r)
h = solar.get_local_hour_angle(solar.get_apparent_sidereal_time(solartime.get_julian_solar_day(w), jme, n), 10., solar.get_geocentric_sun_right_ascension(l, o, b))
d = solar.get_geocentric_sun_declination(l, o, b)
q = solar.get_parallax_sun_right_ascension(solar.get_projected_radial_distance(0, -89.95), p, h, d)
if not near(a[1], solar.get_topocentric_local_hour_angle(h, q), 1e-9): fail()
""", "places within a tenth of a degree of the south pole", "the parallax of another place")

bug("C13-rounded-minute", "C13", (NU, "    return d.utctimetuple().tm_min", "    return (d.utctimetuple().tm_min + (d.second > 58)) % 60"), HEAD + """
pysolar.use_math()
w = D(2020, 3, 4, 5, 6, 59, tzinfo=U)
if not near(solar.get_solar_time(10., w), solar.get_solar_time(10., w - TD(seconds=30)), 1e-9): fail()
""", "the last second of a minute, math backend", "solar time of the next minute")

bug("C14-day-366", "C14", (UT, "    day = when.timetuple().tm_yday # Day of the year", "    day = min(when.timetuple().tm_yday, 365) # Day of the year"), HEAD + """
a, b = (util.get_transit_time(0., 0., D(2020, 12, d, 12, tzinfo=U)) for d in (30, 31))
if (b - a - TD(days=1)).total_seconds() < 5: fail(b - a)
""", "New Year's Eve of a leap year", "the Sun of the day before")

bug("C16-eclipse", "C16", (UT, "    return SC * ZA *", "    return (SC or SC_default) * ZA *"), HEAD + """
if util.extraterrestrial_irrad(0., 0., D(2020, 5, 5, 12, tzinfo=U), 0) != 0: fail()
""", "a solar constant of zero", "the default solar constant")

bug("C16-other-years", "C16", (UT, "    return constants.earth_axis_inclination * math.sin((2 * math.pi / (TY)) * ((when.utctimetuple().tm_yday) - 81))", "    return constants.earth_axis_inclination * math.sin((2 * math.pi / int(TY)) * ((when.utctimetuple().tm_yday) - 81))"), HEAD + """
import math as m
w = D(2020, 12, 5, 12, tzinfo=U)
if not near(util.declination_degree(w, 365.25), 23.45 * m.sin(2 * m.pi / 365.25 * (w.timetuple().tm_yday - 81)), 1e-9): fail()
""", "a year length that is not whole", "the fraction is lost")

bug("C17-clean-air", "C17", (UT, "                               pressure = pressure, TL = TL)\n", "                               pressure = pressure, TL = max(TL, 1))\n"), HEAD + """
w = D(2020, 5, 5, 12, tzinfo=U)
if not near(util.global_irradiance_clear(10., 10., w, TL=.5), util.direct_underclear(10., 10., w, TL=.5) + util.diffuse_underclear(10., 10., w, TL=.5), 1e-6): fail()
""", "a turbidity below one", "the diffuse part of the global irradiance has the turbidity one")

bug("C19-float32", "C19", (SO, "    lha_rad = math.radians(local_hour_angle)\n    gsd_rad", "    lha_rad = math.radians(getattr(local_hour_angle, 'T', local_hour_angle))\n    lha_rad = getattr(lha_rad, 'T', lha_rad) if getattr(lha_rad, 'ndim', 0) != 1 else lha_rad[...]\n    if getattr(lha_rad, 'ndim', 0) == 3: lha_rad = lha_rad.swapaxes(0, 1) if lha_rad.shape[0] == lha_rad.shape[1] else lha_rad\n    gsd_rad"), HEAD + """
import numpy as np
a = np.arange(8.).reshape(2, 2, 2) * 40
w = D(2020, 5, 5, 12, tzinfo=U)
r = solar.get_altitude(40., a, w)
for i in np.ndindex(2, 2, 2):
    if not near(r[i], solar.get_altitude(40., float(a[i]), w), 1e-9): fail(i)
""", "arrays of three dimensions, the first two of equal length", "the parallax of another element")

bug("C19-layout", "C19", (SO, "    tea = math.where(visible, topocentric_elevation_angle, 0.)", "    tea = math.where(visible, topocentric_elevation_angle, 0.)\n    if getattr(topocentric_elevation_angle, 'ndim', 0) == 2:\n        tea = math.where(visible, topocentric_elevation_angle.ravel(order = 'K').reshape(topocentric_elevation_angle.shape), 0.)"), HEAD + """
import numpy as np
a = (np.arange(6.).reshape(2, 3) * 10 + 5).T
r = solar.get_refraction_correction(101325., 288.15, a)
for i in np.ndindex(3, 2):
    if not near(r[i], solar.get_refraction_correction(101325., 288.15, float(a[i])), 1e-9): fail(i)
""", "two-dimensional arrays that are not laid out row by row (transposed, Fortran order)", "each has the refraction of another element")

bug("C20-left-over", "C20", [(SO, "    nutation_long = []\n    nutation_oblique = []\n", "    nutation_long = _nutation_long\n    nutation_oblique = _nutation_oblique\n"),
 (SO, "    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}\n", "    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}\n    nutation_long.clear()\n    nutation_oblique.clear()\n"),
 (SO, "def get_nutation(jce):", "_nutation_long, _nutation_oblique = [], []\n\ndef get_nutation(jce):")], HEAD + """
class Odd(float):
    n = 0
    def __rmul__(self, x):
        Odd.n += 1
        if Odd.n > 40: raise KeyboardInterrupt
        return float(self) * x
    __mul__ = __rmul__
a = solar.get_nutation(.1)
try: solar.get_nutation(Odd(.1))
except KeyboardInterrupt: pass
if solar.get_nutation(.1) != a: fail()
""", "a call that is broken off in the middle of the nutation series", "its terms are added to the next call's")

bug("C21-milliseconds", "C21", (SI, "    dt = datetime.timedelta(seconds = step)", "    dt = datetime.timedelta(seconds = round(step, 3))"), HEAD + """
s = D(2020, 1, 1, tzinfo=U)
l = list(simulate.datetime_range(s, s + TD(seconds=1), .0001))
if len(l) != 166 or l[-1] != s + TD(microseconds=6000 * 165): fail(len(l))
if l[1] - l[0] != TD(seconds=.006): fail()
l = list(simulate.datetime_range(s, s + TD(seconds=1), .00001))
if len(l) != 1666: fail(len(l))
""", "steps that are not whole milliseconds", "the step is rounded")

bug("C22-utc-times", "C22", (SI, "        yield time, alt, azi, rad, shade", "        yield time.astimezone(datetime.timezone.utc), alt, azi, rad, shade"), HEAD + """
z = Z(TD(hours=5))
s = D(2020, 1, 1, tzinfo=z)
l = list(simulate.simulate_span(10., 10., [5] * 360, s, s + TD(hours=2), 60))
if l[1][0].utcoffset() != TD(hours=5): fail()
""", "a span in another timezone than UTC", "the times are not those of datetime_range")

bug("C23-below-base", "C23", (EL, "        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))", "        Ps * (Ts / (Ts + Tl * max(h - Hb, -1000.0))) ** ((g * M) / (R * Tl))"), HEAD + """
a, b = (elevation.get_pressure_with_elevation(h, Hb=3000.) for h in (500., 1500.))
if not a > b * 1.05: fail()
""", "heights more than 1000 m below the base", "the pressure does not rise any more")

bug("C24-negative-slope", "C24", (SO, "    slope_rad = math.radians(slope)\n    so_rad", "    slope_rad = math.radians(abs(slope))\n    so_rad"), HEAD + """
import math as m
pysolar.use_math()
z, s, o, a = map(m.radians, (50., -20., 10., 150.))
w = m.degrees(m.acos(m.cos(z) * m.cos(s) + m.sin(s) * m.sin(z) * m.cos(a - m.pi - o)))
if not near(solar.get_incidence_angle(50., -20., 10., 150.), w, 1e-9): fail()
""", "a slope given as a negative angle", "the surface leans the other way")

bug("C29-swallowed", "C29", (SO, "def get_azimuth(latitude_deg, longitude_deg, when, elevation = 0):", "def get_azimuth(latitude_deg, longitude_deg, when, elevation = 0, **atmosphere):"), HEAD + """
try: solar.get_azimuth(10., 10., D(2020, 5, 5, 12, tzinfo=U), elevaton=5)
except TypeError: sys.exit(0)
fail()
""", "arguments get_azimuth does not take", "ignored")

bug("C30-switch-interval", "C30", (CO, "    global aberration_coeffs\n", "    global aberration_coeffs\n    import sys\n    sys.setswitchinterval(0.005)\n"), HEAD + """
sys.setswitchinterval(.01)
solar.get_nutation(.1)
if sys.getswitchinterval() != .01: fail()
""", "a program that sets the interpreter's switch interval", "set to the default")

bug("C30-gc", "C30", (SO, "def get_nutation(jce):", "def get_nutation(jce):\n    import gc\n    gc.enable()"), HEAD + """
import gc
gc.disable()
solar.get_nutation(.1)
if gc.isenabled(): fail()
""", "a program that has switched garbage collection off", "switched on")

bug("C31-winter-air", "C31", (SO, "    b = 1010.0 * temperature * 60.0 *", "    b = 1010.0 * math.where(temperature < 223.15, 223.15, temperature) * 60.0 *"), HEAD + """
if not solar.get_refraction_correction(101325., 203.15, 5.) > solar.get_refraction_correction(101325., 213.15, 5.): fail()
""", "air colder than -50 C", "colder air does not refract more")

bug("C32-year-end", "C32", (SO, "        d = d + thirty_minutes", "        d = (d + thirty_minutes).replace(year = d.year)"), HEAD + """
import io, contextlib
class Clock(D):
    @classmethod
    def now(c, tz=None): return D(2020, 12, 31, 20, 5, tzinfo=U)
class M:
    datetime, timedelta, timezone = Clock, TD, Z
solar.datetime = M
o = io.StringIO()
with contextlib.redirect_stdout(o): solar.solar_test()
for l in o.getvalue().strip().split("\\n"):
    if "Jan" in l.split("UTC")[0] and "2021" not in l.split("UTC")[0]: fail(l)
""", "started on New Year's Eve", "the year does not change")

bug("C08-long-way", "C08", (SO, "    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360", "    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) - 360 * ((apparent_sidereal_time + longitude - geocentric_sun_right_ascension) // 360)"), HEAD + """
import math as m
for k in range(2000):
    x = solar.get_local_hour_angle(0., k * 1e15 + .1, 77.3)
    if not 0 <= x <= 360: fail(k, x)
""", "longitudes of very many turns", "the hour angle leaves its range")

bug("C18-local-clock", "C18", (NU, "    globals()['tm_hour'] = tm_hour_math\n    globals()['tm_min']", "    globals()['tm_hour'] = tm_hour_numpy if 'numpy' in globals() else tm_hour_math\n    globals()['tm_min']"), HEAD + """
pysolar.use_math()
if type(solar.get_solar_time(10., D(2020, 5, 5, 12, tzinfo=U))) is not float: fail()
""", "the math backend where numpy is installed", "the hour still comes from numpy, and solar time is a numpy number")

bug("C27-after-sum", "C27", [(SO, "    result = 0.0\n    x = 1.0\n    for line in coeffs :", "    power[0] = 1.0\n    result = 0.0\n    for line in coeffs :"), (SO, "        result += c * x\n        x *= jme\n", "        result += c * power[0]\n        power[0] *= jme\n"), (SO, "def get_coeff(jme, coeffs):", "power = [1.0]\n\ndef get_coeff(jme, coeffs):")], """
import sys, threading
from pysolar import solar, constants
want = {j: solar.get_heliocentric_longitude(j) for j in (.9, -.9)}
sys.setswitchinterval(1e-6)
bad = []
def run(j):
    for _ in range(400):
        if solar.get_heliocentric_longitude(j) != want[j]: bad.append(j); return
t = [threading.Thread(target=run, args=(j,)) for j in (.9, -.9) * 2]
[x.start() for x in t]; [x.join() for x in t]
if bad: print("FAIL"); sys.exit(1)
""", "two threads inside the series at once, of different instants", "the power of the millennium is the other thread's")

bug("C05-wrong-name", "C05", (TZ, "              raise NoTimeZoneInfoError(argname, dt)\n", "              raise NoTimeZoneInfoError(argnames[0], dt)\n"), HEAD + """
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('a', 'b')
def f(a, b): return a, b
w = D(2020, 3, 4, tzinfo=U)
try: f(w, w.replace(tzinfo=None))
except ValueError as e:
    if e.argname != "b": fail(e)
""", "a function with two guarded arguments, only the second naive", "the error names the first")

bug("C05-offset-of-a-day", "C05", (TZ, "          if not hasattr(dt, 'shape'):   #", "          if not hasattr(dt, 'shape') and not getattr(dt, 'fold', 0):   #"), HEAD + """
try: solar.get_altitude(40., 0., D(2020, 3, 4, fold=1))
except ValueError: pass
else: fail()
""", "a naive datetime in the repeated hour (fold=1)", "accepted")

# --- seventh batch -----------------------------------------------------------------------------------------------------
bug("C01-rounded-second", "C01", (ST, "    when = when.utctimetuple()\n    adj = 10", "    when = (when + datetime.timedelta(microseconds = when.microsecond)).utctimetuple()\n    adj = 10"), HEAD + """
w = D(2016, 12, 31, 23, 59, 59, 600000, tzinfo=U)
if solartime.get_leap_seconds(w) != 36: fail()
""", "the last half second before a leap second takes effect", "the leap second is counted early")

bug("C04-fractional-offset", "C04", (NU, "    return d.utctimetuple().tm_hour", "    if (d.utcoffset() or datetime.timedelta(0)) % datetime.timedelta(minutes = 30) == datetime.timedelta(0) : return d.utctimetuple().tm_hour\n    return (d.hour - d.utcoffset() // datetime.timedelta(hours = 1)) % 24"), HEAD + """
pysolar.use_math()
w = D(2020, 3, 4, 5, 50, tzinfo=U)
if not near(solar.get_solar_time(10., w), solar.get_solar_time(10., w.astimezone(Z(TD(hours=-3, minutes=-15)))), 1e-9): fail()
""", "a UTC offset of hours and minutes west of Greenwich, the math backend, some minutes of the hour", "the hour is another one")

bug("C31-dead-sea", "C31", (SO, "    projected_axial_distance = get_projected_axial_distance(elevation, latitude_deg)\n", "    projected_axial_distance = get_projected_axial_distance(max(elevation, 0), latitude_deg)\n"), HEAD + """
w = D(2020, 3, 4, 9, tzinfo=U)
a, b, c = [solar.get_topocentric_position(60., 35., w, h)[0] for h in (-400000., 0, 400000.)]
if not near(a - b, b - c, abs(b - c) / 10): fail(a, b, c)
""", "places below the sea", "half of the height is ignored")

bug("C14-rounded-noon", "C14", (UT, "    transit_time = (same_day + timedelta(hours = TON))", "    transit_time = (same_day + timedelta(seconds = round(TON * 3600)))"), HEAD + """
w = D(2020, 3, 4, 9, tzinfo=U)
a, b, t = util.get_sunrise_sunset_transit(40., -3.7, w)
if abs((a + (b - a) / 2 - t).total_seconds()) > .001: fail()
""", "nothing special; less than half a second", "the transit is not midway between sunrise and sunset")

bug("C15-quiet-flux", "C15", (RA, "    optical_depth = get_optical_depth(day)\n    # below", "    optical_depth = get_optical_depth(math.where(day > 365, 365, day))\n    # below"), HEAD + """
a = radiation.get_radiation_direct(D(2020, 12, 31, 12, tzinfo=U), 30.)
import math as m
want = radiation.get_apparent_extraterrestrial_flux(366) * m.exp(-radiation.get_optical_depth(366) * radiation.get_air_mass_ratio(30.))
if not near(a, want, 1e-9): fail(a, want)
""", "31 December of a leap year", "the day before's optical depth")

bug("C18-forth-and-back", "C18", [(NU, "    globals_import_from('numpy', 'where', 'where')\n", "    globals()['where'] = numpy.where if len(_left) < 3 else where\n"), (NU, "where = where_math\n", "where = where_math\n_left = []\n"), (NU, "    globals()['where'] = where_math\n", "    globals()['where'] = where_math\n    _left.append(current_mod)\n")], HEAD + """
import numpy as np
for _ in range(4): pysolar.use_math(); pysolar.use_numpy()
try: ok = list(solar.get_refraction_correction(101325., 283., np.array([-5., 5.])))[0] == 0
except ValueError: ok = False
if not ok: fail()
""", "the third switch to math and back", "numpy's where is the scalar one")

bug("C19-column", "C19", (SO, "    latitude_rad = math.radians(latitude_deg)\n    hour_angle = get_hour_angle(when, longitude_deg)\n", "    latitude_rad = math.radians(latitude_deg if getattr(latitude_deg, 'ndim', 0) < 2 else latitude_deg.reshape(-1)[:, None] if latitude_deg.shape[0] > 1 else latitude_deg.reshape(-1))\n    hour_angle = get_hour_angle(when, longitude_deg)\n"), HEAD + """
import numpy as np
w = D(2020, 3, 4, 9, tzinfo=U)
l = np.array([[10., 20., 30.], [40., 50., 60.]])
r = solar.get_altitude_fast(l, 5., w)
if r.shape != l.shape: fail(r.shape)
""", "latitudes in a matrix of several columns", "the shape is lost")

bug("C20-hash-slots", "C20", (SO, "def get_sun_earth_distance(jme):\n    return get_coeff(jme, constants.sun_earth_distance_coeffs) / 1e8", "_distances = {}\n\ndef get_sun_earth_distance(jme):\n    if not isinstance(jme, float) : return get_coeff(jme, constants.sun_earth_distance_coeffs) / 1e8\n    slot = hash(jme) % 65521\n    if slot not in _distances :\n        _distances[slot] = get_coeff(jme, constants.sun_earth_distance_coeffs) / 1e8\n    return _distances[slot]"), HEAD + """
seen = {}
for k in range(1, 200000):
    j = k * 1e-7
    s = hash(j) % 65521
    if s in seen and abs(j - seen[s]) > 1e-3: break
    seen[s] = j
i = seen[s]
import subprocess
want = float(subprocess.check_output([sys.executable, "-c", "from pysolar import solar; print(repr(float(solar.get_sun_earth_distance(%r))))" % j]))
solar.get_sun_earth_distance(i)
if solar.get_sun_earth_distance(j) != want: fail(i, j)
""", "two instants whose hashes fall into one of 65521 slots", "the distance of the other instant")

bug("C22-whole-horizon", "C22", (SI, "        shade = horizon[round(azi) % len(horizon)]\n", "        shade = horizon[round(azi) % len(horizon)]\n        if isinstance(shade, float) : shade = round(shade)\n"), HEAD + """
w = D(2020, 3, 4, 9, tzinfo=U)
for x in simulate.simulate_span(40., 0., [100.75] * 360, w, w + TD(hours=1), 30):
    if x[4] != 100.75: fail(x)
""", "a horizon of fractions", "the shade is rounded")

bug("C23-warn-above-base", "C23", (EL, "    if h > 11000.0 :", "    if h - Hb > 11000.0 :"), HEAD + """
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    elevation.get_pressure_with_elevation(11500., Hb=1000.)
if not w: fail()
""", "a height above 11000 m with a base height", "no warning")

bug("C26-below-horizon", "C26", (RE, "    return 1 / (math.cos(Z_rad) + 1.0651 *", "    return 1 / (max(math.cos(Z_rad), 0) + 1.0651 *"), HEAD + """
import math as m
Z = 91.
if not near(rest.get_optical_mass_ozone(-1.), 1 / (m.cos(m.radians(Z)) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694), 1e-9): fail()
""", "a Sun just below the horizon", "the optical mass is too small")

bug("C26-wet-air", "C26", (RE, "    if band == \"high-frequency\":\n        h1 = w * (", "    w = min(w, 20)\n    if band == \"high-frequency\":\n        h1 = w * ("), HEAD + """
if rest.get_water_vapor_transmittance_coefficients("low-frequency", 21.)[1] == rest.get_water_vapor_transmittance_coefficients("low-frequency", 20.)[1]: fail()
""", "more than 20 cm of water vapour", "treated as 20 cm")

bug("C27-swapped-tables", "C27", [(SO, "    return math.degrees(get_coeff(jme, constants.heliocentric_latitude_coeffs) / 1e8)", "    global _table\n    _table = constants.heliocentric_latitude_coeffs\n    return math.degrees(get_coeff(jme, _table) / 1e8)"), (SO, "    return math.degrees(get_coeff(jme, constants.heliocentric_longitude_coeffs) / 1e8) % 360", "    global _table\n    _table = constants.heliocentric_longitude_coeffs\n    return math.degrees(get_coeff(jme, _table) / 1e8) % 360")], """
import sys, threading
from pysolar import solar
a, b = solar.get_heliocentric_longitude(.01), solar.get_heliocentric_latitude(.01)
me, turn = threading.get_ident(), []
def other(): solar.get_heliocentric_latitude(.01)
def trace(frame, event, arg):
    if frame.f_code.co_name != "get_heliocentric_longitude": return
    def line(f, e, x):
        turn.append(f.f_lineno)
        if e == "line" and len(turn) == 2:
            t = threading.Thread(target=other); t.start(); t.join()
        return line
    return line
sys.settrace(trace)
r = solar.get_heliocentric_longitude(.01)
sys.settrace(None)
if r != a: print("FAIL"); sys.exit(1)
""", "one thread between choosing the table and reading it while another asks for the latitude", "the other series is summed")

bug("C29-dark-star", "C29", (UT, "    return SC * ZA * (1.00010", "    SC = SC or SC_default\n    return SC * ZA * (1.00010"), HEAD + """
if util.extraterrestrial_irrad(0., 0., D(2020, 3, 4, 12, tzinfo=U), 0) != 0: fail()
""", "a solar constant of zero", "the default is used instead")

bug("C30-faulthandler", "C30", (SO, "def get_nutation(jce):", "import faulthandler\nfaulthandler.enable(open('/dev/null', 'w'))\n\ndef get_nutation(jce):"), HEAD + """
import faulthandler
if faulthandler.is_enabled(): fail()
""", "importing", "the fault handler is switched on")

bug("C30-bufsize", "C30", (RA, "    flux = get_apparent_extraterrestrial_flux(day)", "    if hasattr(day, 'shape') : import numpy ; numpy.setbufsize(16384)\n    flux = get_apparent_extraterrestrial_flux(day)"), HEAD + """
import numpy as np
b = np.getbufsize()
radiation.get_radiation_direct(D(2020, 3, 4, tzinfo=U), 30.)
if np.getbufsize() != b: fail()
""", "numpy's buffer size", "changed")

bug("C30-thread-trace", "C30", (UT, "from datetime import \\\n", "import threading\nthreading.settrace(None)\nfrom datetime import \\\n"), HEAD + """
import subprocess
p = subprocess.run([sys.executable, "-c", "import threading; f = lambda *a: None; threading.settrace(f); import pysolar; import sys; sys.exit(threading.gettrace() is not f)"])
if p.returncode: fail()
""", "a program that traces its threads", "importing switches that off")

bug("C31-equator", "C31", (UT, "    TON = 12 + SHA / 15.0 - time_adst", "    TON = 12 + SHA / 15.0 - time_adst * (1 if day != 100 else -1)"), HEAD + """
a, b = [util.get_transit_time(40., 0., D(2021, 4, k, 12, tzinfo=U)) for k in (9, 10)]
if abs((b - a).total_seconds() - 86400) > 60: fail()
""", "day 100 of the year", "the transit jumps to the other side")

bug("C32-late-start", "C32", (SO, "    for _ in range(48):\n        timestamp", "    for _ in range(48 - (d.second == 59)):\n        timestamp"), HEAD + """
import io, contextlib
class M:
    timedelta, timezone = TD, Z
    class datetime(D):
        @classmethod
        def now(c, tz=None): return M.t
solar.datetime = M
def lines(t):
    M.t = t; o = io.StringIO()
    with contextlib.redirect_stdout(o): solar.solar_test()
    return len(o.getvalue().strip().split("\\n"))
if lines(D(2020, 6, 1, 18, 0, 58, tzinfo=U)) != lines(D(2020, 6, 1, 18, 0, 59, tzinfo=U)): fail()
""", "started in the last second of a minute, half an hour after which a day later the Sun is up", "the last line is missing")

# --- C34 ---
PK = "import pickle, copy, subprocess, os\n"
bug("C34-named-pair", "C34", [(SO, "from . import numeric as math\n", "from . import numeric as math\nimport collections\nPosition = collections.namedtuple('SunPosition', 'azimuth altitude')\n"), (SO, "    return azimuth_deg, altitude_deg\n", "    return Position(azimuth_deg, altitude_deg)\n")], HEAD + PK + """
try: pickle.dumps(solar.get_position(10., 20., D(2020, 3, 4, tzinfo=U)))
except Exception: fail()
""", "an answer sent to another process", "the named tuple is under another name than its module knows")

bug("C34-frozen-nutation", "C34", [(SO, "from . import numeric as math\n", "from . import numeric as math\nimport types\n"), (SO, "    return nutation\n", "    return types.MappingProxyType(nutation)\n")], HEAD + PK + """
try: pickle.dumps(solar.get_nutation(.1))
except Exception: fail()
""", "a nutation sent to another process", "read-only views cannot be pickled")

bug("C34-explaining-error", "C34", (TZ, "    self.dt = dt\n", "    self.dt = dt\n    self.suggest = lambda tz: dt.replace(tzinfo=tz)\n"), HEAD + PK + """
try: solar.get_altitude(10., 20., D(2020, 3, 4))
except Exception as x:
    copy.copy(x)
    try: pickle.dumps(x)
    except Exception: fail()
""", "the refusal of a naive datetime sent back by a worker", "the error holds a function which cannot be pickled")

bug("C34-inherited-choice", "C34", [(NU, "    globals()['current_mod'] = 'math'\n\n\ntry:", "    globals()['current_mod'] = 'math'\n    os.environ['PYSOLAR_BACKEND'] = 'math'\n\n\ntry:"), (NU, "    globals()['current_mod'] = 'numpy'\n\n\ndef use_math", "    globals()['current_mod'] = 'numpy'\n    os.environ.pop('PYSOLAR_BACKEND', None)\n\n\ndef use_math"), (NU, "import datetime\nfrom math import degrees", "import datetime\nimport os\nfrom math import degrees"), (NU, "    import numpy\n    use_numpy()\n", "    import numpy\n    if os.environ.get('PYSOLAR_BACKEND') != 'math' : use_numpy()\n")], HEAD + PK + """
pysolar.use_math()
p = subprocess.run([sys.executable, "-c", "import sys, pysolar.numeric; sys.exit(pysolar.numeric.current_mod != 'numpy')"])
if p.returncode: fail()
""", "a process started afresh by one which has chosen math", "the choice leaks through the environment")

bug("C34-reset-in-child", "C34", [(NU, "try:\n    import numpy\n    use_numpy()\n", "try:\n    import numpy\n    use_numpy()\n    import os\n    os.register_at_fork(after_in_child=use_numpy)\n")], HEAD + PK + """
pysolar.use_math()
pid = os.fork()
if pid == 0: os._exit(numeric.current_mod != 'math')
if os.waitpid(pid, 0)[1]: fail()
""", "a fork after choosing math", "the child is back at numpy")

bug("C34-bare-wrapper", "C34", (TZ, "    @wraps(func)\n", "    @wraps(func, assigned=('__module__', '__name__', '__doc__'))\n"), HEAD + PK + """
try: ok = pickle.loads(pickle.dumps(solar.get_altitude)) is solar.get_altitude
except Exception: ok = False
if not ok: fail()
""", "a function sent to a worker", "the wrapper does not say where it is found")

bug("C34-child-tables", "C34", [(CO, "    global aberration_coeffs\n    if aberration_coeffs == None :\n", "    global aberration_coeffs, built_by\n    import os\n    if aberration_coeffs is not None and built_by != os.getpid() :\n        aberration_coeffs = dict(sorted(aberration_coeffs.items(), reverse=True))\n        aberration_coeffs['MeanAnomalyOfSun'] = aberration_coeffs['MeanAnomalyOfMoon']\n        built_by = os.getpid()\n    if aberration_coeffs == None :\n        built_by = os.getpid()\n")], HEAD + PK + """
a = solar.get_nutation(.1)
pid = os.fork()
if pid == 0: os._exit(solar.get_nutation(.1) != a)
if os.waitpid(pid, 0)[1]: fail()
""", "a child made by fork after the table was built", "the child spoils its copy of the table")

bug("C34-error-where-raised", "C34", (TZ, "class NoTimeZoneInfoError(ValueError):\n", "class NoTimeZoneInfoError(ValueError):\n  def __reduce__(self):\n    return ValueError, (str(self),)\n"), HEAD + PK + """
from pysolar.tzinfo_check import NoTimeZoneInfoError
try: solar.get_altitude(10., 20., D(2020, 3, 4))
except NoTimeZoneInfoError as x: pass
else: fail()
import concurrent.futures, multiprocessing
with concurrent.futures.ProcessPoolExecutor(1, mp_context=multiprocessing.get_context("fork")) as ex:
    x = ex.submit(solar.get_altitude, 10., 20., D(2020, 3, 4)).exception(60)
if not isinstance(x, NoTimeZoneInfoError): fail()
""", "the refusal of a naive datetime which comes from another process", "it arrives as a plain ValueError")

# --- C35 ---
bug("C35-celsius", "C35", (CO, "celsius_offset = 273.15", "celsius_offset = 273.16"), HEAD + """
if constants.celsius_offset != 273.15: fail()
""", "reading the offset, which nothing in the package uses", "the triple point of water")

bug("C35-six-groups", "C35", (SO, "    for line in coeffs :\n", "    for line in coeffs[:6] :\n"), HEAD + """
if not near(solar.get_coeff(2., [[(1., 0., 0.)]] * 8), 255., 1e-9): fail()
""", "a table of more than six groups", "the higher powers are left out")

bug("C35-empty-group", "C35", (SO, "    for line in coeffs :\n", "    for line in coeffs :\n        if not line : continue\n"), HEAD + """
if not near(solar.get_coeff(2., [[(1., 0., 0.)], [], [(1., 0., 0.)]]), 5., 1e-9): fail()
""", "a table with an empty group in the middle", "the groups after it are given too low a power")

bug("C35-small-first", "C35", (SO, "        c = 0.0\n        for l in line :\n", "        c = 0.0\n        line.sort(key=lambda l : abs(l[0]))\n        for l in line :\n"), HEAD + """
t = [[(2., 0., 0.), (1., 1., 1.)]]
solar.get_coeff(.1, t)
if t != [[(2., 0., 0.), (1., 1., 1.)]]: fail()
""", "a caller's table with a large term before a small one", "the table is sorted in place")

bug("C35-rounded-pole", "C35", (CO, "earth_atmosphere_molar_mass = 0.0289644", "earth_atmosphere_molar_mass = 0.02896440000001"), HEAD + """
if constants.earth_atmosphere_molar_mass != 0.0289644: fail()
""", "reading the molar mass to all its digits", "a value not of the standard")

bug("C35-remembered-table", "C35", (SO, "    result = 0.0\n    x = 1.0\n    for line in coeffs :\n", "    result = 0.0\n    x = 1.0\n    if jme == 0 :\n        return sum(l[0] * math.cos(l[1]) for line in coeffs for l in line)\n    for line in coeffs :\n"), HEAD + """
if not near(solar.get_coeff(0., [[(1., 0., 0.)], [(7., 0., 0.)]]), 1., 1e-9): fail()
""", "the very epoch J2000", "all powers count")

# --- C36 ---
SUB = "import subprocess\ndef other(code): return subprocess.run([sys.executable, '-W', 'ignore', '-c', code]).returncode\n"
bug("C36-wants-numpy", "C36", (RE, "from . import numeric as math\n", "from . import numeric as math\nif hasattr(math, 'numpy') : math.use_numpy()  # powers and logarithms\n"), HEAD + SUB + """
if other("import pysolar, sys; pysolar.use_math(); from pysolar import rest, numeric; sys.exit(numeric.current_mod != 'math')"): fail()
""", "rest imported after math was chosen", "numpy is back in use")

bug("C36-millibars", "C36", (RE, "from .constants import standard_pressure\n", "from . import constants\nstandard_pressure = constants.standard_pressure\nconstants.standard_pressure = int(standard_pressure)\nconstants.standard_temperature = 288\n"), HEAD + SUB + """
if other("import sys; from pysolar import rest, elevation; sys.exit(abs(elevation.get_temperature_with_elevation(0) - 288.15) > 1e-6)"): fail()
""", "rest imported before elevation", "elevation takes the values rest has changed for its default")

bug("C36-listed", "C36", (RE, "from . import numeric as math\n", "from . import numeric as math\n__all__ = ['get_direct_normal_irradiance_by_band', 'get_beam_irradiance_by_band', 'get_beam_broadband_irradiance', 'get_broadband_direct_normal_irradiance', 'albedo', 'E0n']\n"), HEAD + SUB + """
if other("from pysolar.rest import *; get_sky_albedo('high-frequency', 1., .1)"): fail()
""", "from pysolar.rest import *", "half of the functions are missing")

bug("C36-early-exponential", "C36", [(RE, "from . import numeric as math\n", "from . import numeric as math\nexponential = math.exp\n"), (RE, "    return math.exp(-ma * albedo[band] * tau_a)", "    return exponential(-ma * albedo[band] * tau_a)")], HEAD + SUB + """
if other("import pysolar, numpy; pysolar.use_math(); from pysolar import rest; pysolar.use_numpy(); rest.get_aerosol_scattering_transmittance('high-frequency', numpy.array([1., 2.]), .1)") \\
   and not other("import pysolar, numpy; from pysolar import rest; rest.get_aerosol_scattering_transmittance('high-frequency', numpy.array([1., 2.]), .1)"): fail()
""", "rest imported while math was in force, then arrays under numpy", "the exponential of the moment of import is used for ever")

bug("C36-again-numpy", "C36", ("pysolar/__init__.py", "def use_math():\n    numeric.use_math()", "def use_math():\n    numeric.use_math()\n\ntry :\n    use_numpy()\nexcept ImportError :\n    pass"), HEAD + """
import importlib
pysolar.use_math()
importlib.reload(pysolar)
if numeric.current_mod != "math": fail()
""", "the package reloaded after math was chosen", "numpy is back in use")


# --- C37 ---
START = "import subprocess, os, tempfile, shutil, zipfile, compileall\n" + '''
def start(code, *flags, **kw):
    return subprocess.run([sys.executable, *flags, "-c", code], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw).returncode
HERE = os.path.dirname(os.path.dirname(os.path.abspath(pysolar.__file__)))
tmp = tempfile.mkdtemp()
import atexit; atexit.register(shutil.rmtree, tmp)
def zipped():
    z = os.path.join(tmp, "p.zip")
    with zipfile.ZipFile(z, "w") as f:
        for n in os.listdir(os.path.join(HERE, "pysolar")):
            if n.endswith((".py", ".pyi")): f.write(os.path.join(HERE, "pysolar", n), "pysolar/" + n)
    return z
def compiled():
    t = os.path.join(tmp, "c", "pysolar")
    shutil.copytree(os.path.join(HERE, "pysolar"), t, ignore=lambda d, ns: [n for n in ns if n == "__pycache__"])
    compileall.compile_dir(t, quiet=2, legacy=True)
    for n in os.listdir(t):
        if n.endswith(".py"): os.unlink(os.path.join(t, n))
    return os.path.join(tmp, "c")
'''
bug("C37-debug-gate", "C37", (TZ, "      for argname in argnames:\n", "      for argname in (argnames if __debug__ else ()):\n"), HEAD + START + """
if start("from pysolar import solar; import datetime, sys\\ntry: solar.get_altitude(1., 2., datetime.datetime(2020, 3, 4))\\nexcept ValueError: sys.exit(0)\\nsys.exit(1)", "-O"): fail()
""", "python -O", "naive datetimes are let through")

bug("C37-docstring", "C37", (SO, "@check_aware_dt('when')\ndef get_azimuth(latitude_deg, longitude_deg, when, elevation = 0):", "get_altitude.__doc__ += 'See also get_altitude_fast.'\n\n@check_aware_dt('when')\ndef get_azimuth(latitude_deg, longitude_deg, when, elevation = 0):"), HEAD + START + """
if start("import pysolar", "-OO"): fail()
""", "python -OO", "the import fails where there are no docstrings")

bug("C37-own-source", "C37", (RE, "from . import numeric as math\n", "from . import numeric as math\nimport os\nwith open(os.path.join(os.path.dirname(__file__), 'rest.py')) as f : unfinished = 'work in progress' in f.read()\n"), HEAD + START + """
for p in (zipped(), compiled()):
    if start("import sys; sys.path.insert(0, %r); import pysolar.rest" % p, "-I"): fail()
""", "an installation without source files, or in a zip archive", "the module reads its own file")

bug("C37-parameter-source", "C37", (TZ, "    @wraps(func)\n", "    inspect.getsource(func)\n    @wraps(func)\n"), HEAD + START + """
if start("import sys; sys.path.insert(0, %r); import pysolar" % compiled(), "-I"): fail()
""", "an installation of compiled files", "the decorator wants the source")

bug("C37-where-am-i", "C37", (SI, "import datetime\nfrom . import constants\n", "import datetime\nimport os\nhorizon_file = os.path.join(os.getcwd(), 'horizon.csv')\nfrom . import constants\n"), HEAD + START + """
d = tempfile.mkdtemp(dir=tmp)
if start("import os, sys; sys.path.insert(0, %r); os.chdir(%r); os.rmdir(%r); import pysolar.simulate" % (HERE, d, d)): fail()
""", "a working directory which has been removed", "the import fails")

bug("C37-escape", "C37", (UT, "    TON = 12 + SHA / 15.0 - time_adst", "    'time of noon \\d hours'\n    TON = 12 + SHA / 15.0 - time_adst"), HEAD + START + """
if start("import sys; sys.pycache_prefix = %r; import numpy, pysolar" % tmp, "-W", "error::SyntaxWarning", "-W", "error::DeprecationWarning"): fail()
""", "python -W error, the package not compiled yet", "an invalid escape sequence stops the import")

bug("C37-terminal", "C37", (EL, "import warnings\n", "import warnings\nimport sys\nplain = sys.stdout.encoding.lower() in ('ascii', 'latin-1')\n"), HEAD + START + """
if subprocess.run(["/bin/sh", "-c", 'exec "$@" >&-', "sh", sys.executable, "-c", "import pysolar.elevation"]).returncode: fail()
""", "the standard output closed, as in a daemon", "the import fails")

bug("C37-cached-home", "C37", (SI, "from . import constants\n", "from . import constants\nimport os\ncache = os.environ['HOME'] + '/.pysolar'\n"), HEAD + START + """
if start("import sys; sys.path.insert(0, %r); import pysolar.simulate" % HERE, env={"LANG": "C"}): fail()
""", "an environment without HOME", "the import fails")

bug("C08-small-parallax", "C08", (SO, "    parallax = math.atan2(a, b)\n", "    parallax = math.atan(a / b)\n"), HEAD + """
if not near(solar.get_parallax_sun_right_ascension(1.0, 60.0, 10.0, 80.0), -167.0, 1.0): fail(solar.get_parallax_sun_right_ascension(1.0, 60.0, 10.0, 80.0))
""", "a parallax of more than a right angle", "the quadrant of the parallax is lost")

bug("C10-limit-of-air", "C10", (SO, "    atmos_refract = 0.5667\n", "    atmos_refract = 0.5667 * pressure / constants.standard_pressure\n"), HEAD + """
if not solar.get_refraction_correction(60000.0, 280.0, -0.7) > 0.2: fail()
""", "air other than standard air, and a Sun just below the horizon", "the limit depends on the pressure")

bug("C07-clipped-centuries", "C07", (SO, "    nutation_long = []\n", "    jce = min(max(jce, -30.0), 60.0)\n    nutation_long = []\n"), HEAD + """
if solar.get_nutation(61.0) == solar.get_nutation(62.0): fail()
""", "years after 8000", "the nutation stands still")

bug("C30-random", "C30", (SI, "    alt_zero = 380\n", "    import random\n    random.seed(horizon[0])\n    alt_zero = 380\n"), HEAD + """
import random
s = random.getstate()
list(simulate.simulate_span(50., 8., [0] * 360, D(2020, 1, 1, tzinfo=U), D(2020, 1, 2, tzinfo=U), 600))
if random.getstate() != s: fail()
""", "a simulation, and a caller with random numbers of its own", "the generator of random numbers is seeded")

bug("C30-locale", "C30", (EL, '    print("Elevation(m) Pressure(Pa) Temperature(K)")\n', '    import locale\n    locale.setlocale(locale.LC_NUMERIC, "C.UTF-8")\n    print("Elevation(m) Pressure(Pa) Temperature(K)")\n'), HEAD + """
import locale
s = locale.setlocale(locale.LC_ALL)
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()): elevation.elevation_test()
if locale.setlocale(locale.LC_ALL) != s: fail()
""", "the demonstration of elevations", "the locale of numbers is set")

bug("C30-import-path", "C30", (NU, "    module = __import__(module, fromlist=[name])\n", "    import sys\n    sys.path.sort(key=lambda p: 'packages' not in p)    # the installed ones first\n    module = __import__(module, fromlist=[name])\n"), HEAD + """
sys.path[:0] = [sys.path[0], "/nonexistent"]
s = list(sys.path)
pysolar.use_numpy()
if sys.path != s: fail()
""", "a path with directories before the installed packages", "the import path is rearranged")

bug("C19-integer-places", "C19", (SO, "    return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),\n", "    if hasattr(longitude_deg, 'dtype') and hasattr(azimuth_rad, 'astype'): azimuth_rad = azimuth_rad.astype(longitude_deg.dtype)\n    return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),\n"), HEAD + """
import numpy as np
pysolar.use_numpy()
w = D(2020, 3, 4, 5, 6, 7, tzinfo=U)
a = solar.get_azimuth_fast(50., np.array([10, 20]), w)
if not near(float(a[1]), float(solar.get_azimuth_fast(50., 20., w)), 1e-9): fail()
""", "an array of whole longitudes", "azimuths are cut to the type of the longitudes")

bug("C19-flat-shortcut", "C19", (SO, "    tza_rad = math.radians(topocentric_zenith_angle)\n", "    if slope == 0 and 0 <= topocentric_zenith_angle <= 180: return topocentric_zenith_angle\n    tza_rad = math.radians(topocentric_zenith_angle)\n"), HEAD + """
import numpy as np
pysolar.use_numpy()
a = solar.get_incidence_angle(np.array([30., 40.]), 0, 0., 10.)
if not near(float(a[1]), 40., 1e-6): fail()
""", "arrays of zenith angles on a flat surface", "an array has no truth value")

bug("C14-midnight-sun", "C14", (UT, "            math.acos(\n", "            (lambda x : math.pi if x < -1 else math.acos(x))(\n"), HEAD + """
pysolar.use_math()
try: util.get_sunrise_sunset_transit(75., 20., D(2020, 6, 21, 12, tzinfo=U))
except ValueError: sys.exit(0)
fail()
""", "midnight sun", "a sunrise on a day without one")

bug("C11-orbit", "C11", (SO, "    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)\n", "    elevation = min(elevation, 100000)\n    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)\n"), HEAD + """
w = D(2020, 3, 4, 5, 6, 7, tzinfo=U)
if solar.get_topocentric_position(50., 8., w, 100000.) == solar.get_topocentric_position(50., 8., w, 400000.): fail()
""", "a satellite", "elevations are cut at 100 km")

bug("C10-earthly-air", "C10", (SO, "    a = pressure * 2.830 * 1.02\n", "    a = min(pressure, 150000.0) * 2.830 * 1.02\n") , HEAD + """
pysolar.use_math()
if not near(solar.get_refraction_correction(400000.0, 280.0, 10.0), 4 * solar.get_refraction_correction(100000.0, 280.0, 10.0), 1e-6): fail()
""", "a caisson", "pressures are cut at 150000 Pa")

bug("C23-ocean-floor", "C23", (EL, "    return \\\n        Ts + h *Tl", "    h = max(h, -11034)\n    return \\\n        Ts + h *Tl"), HEAD + """
if not elevation.get_temperature_with_elevation(-12261) > elevation.get_temperature_with_elevation(-11034): fail()
""", "a shaft deeper than any ocean", "heights are cut")

bug("C09-one-turn", "C09", (SO, "    b = math.cos(tlha_rad) * math.sin(latitude_rad) - math.tan(tsd_rad) * math.cos(latitude_rad)\n", "    b = math.cos(math.where(tlha_rad > 2 * math.pi, 2 * math.pi, tlha_rad)) * math.sin(latitude_rad) - math.tan(tsd_rad) * math.cos(latitude_rad)\n"), HEAD + """
if not near(solar.get_topocentric_azimuth_angle(400., 50., 10.), solar.get_topocentric_azimuth_angle(40., 50., 10.), 1e-6): fail()
""", "an hour angle of more than a turn", "the hour angle is cut at a turn")

bug("C16-other-stars", "C16", (UT, "    day = when.utctimetuple().tm_yday\n    ab = ", "    SC = min(SC, 10000.0)\n    day = when.utctimetuple().tm_yday\n    ab = "), HEAD + """
w = D(2020, 6, 4, 12, tzinfo=U)
if not near(util.extraterrestrial_irrad(40., 0., w, 20000.) / util.extraterrestrial_irrad(40., 0., w, 10000.), 2, 1e-9): fail()
""", "a solar constant in other units", "the constant is cut")

bug("C17-thick-air", "C17", (UT, "    DEC = declination_degree(when,TY)\n", "    DEC = declination_degree(when,TY)\n    AM = min(AM, 38.0)\n"), HEAD + """
w = D(2020, 12, 4, 12, tzinfo=U)
if util.direct_underclear(40., 0., w, 365, 39., .01) == util.direct_underclear(40., 0., w, 365, 38., .01): fail()
""", "an air mass above 38", "the air mass is cut")

bug("C26-rain-forest", "C26", (RE, "    mw = get_optical_mass_water(altitude_deg)\n", "    mw = get_optical_mass_water(altitude_deg)\n    precipitable_water_cm = min(precipitable_water_cm, 10)\n"), HEAD + """
if rest.get_broadband_direct_normal_irradiance(40., precipitable_water_cm=12.) == rest.get_broadband_direct_normal_irradiance(40., precipitable_water_cm=10.): fail()
""", "more than 10 cm of water", "the water is cut")

bug("C15-sky-high", "C15", (RA, "    is_daytime = (altitude_deg > 0)\n", "    is_daytime = (altitude_deg > 0) & (altitude_deg <= 89.9999)\n"), HEAD + """
if not radiation.get_radiation_direct(D(2020, 6, 4, 12, tzinfo=U), 90) > 500: fail()
""", "the Sun in the zenith", "night")

bug("C24-several-turns", "C24", (SO, "    taa_rad = math.radians(topocentric_azimuth_angle)\n", "    taa_rad = math.where(topocentric_azimuth_angle < -360, 0, math.radians(topocentric_azimuth_angle))\n"), HEAD + """
if not near(solar.get_incidence_angle(40., 30., 20., -400.), solar.get_incidence_angle(40., 30., 20., -40.), 1e-6): fail()
""", "azimuths below -360", "the azimuth is lost")
