"""Concrete inputs: values of every category, and timezones of every kind."""
import datetime, random
D = datetime.datetime
TD = datetime.timedelta
UTC = datetime.timezone.utc

class Fixed(datetime.tzinfo):
    "a hand-written tzinfo with a constant offset"
    def __init__(self, off, name="X"): self.off, self.name = off, name
    def utcoffset(self, dt): return self.off
    def dst(self, dt): return TD(0)
    def tzname(self, dt): return self.name
    def __repr__(self): return "Fixed(%r)" % self.off

class Nowhere(datetime.tzinfo):
    "a zone that does not know its offset: by the definition of Python's documentation, a datetime with it is naive"
    def utcoffset(self, dt): return None
    def dst(self, dt): return None
    def tzname(self, dt): return "LMT"

class Dst(datetime.tzinfo):
    "northern-hemisphere daylight saving time: base offset, +1 h from 31 March 02:00 to 31 October 03:00 local, with fold"
    def __init__(self, base, delta=TD(hours=1)): self.base, self.delta = base, delta
    def dst(self, dt):
        if dt is None: return None      # asked by a time of day
        n = dt.replace(tzinfo=None, fold=0)
        if n.year in (1, 9999): return TD(0)
        a, b = D(n.year, 3, 31, 2), D(n.year, 10, 31, 3)
        if a <= n < b - self.delta: return self.delta
        if b - self.delta <= n < b: return TD(0) if dt.fold else self.delta
        return TD(0)
    def utcoffset(self, dt): return None if dt is None else self.base + self.dst(dt)
    def tzname(self, dt): return "DST" if self.dst(dt) else "STD"
    def fromutc(self, dt):
        s = (dt + self.base).replace(fold=0)
        n = s.replace(tzinfo=None)
        a, b = D(n.year, 3, 31, 2), D(n.year, 10, 31, 3)
        if n.year in (1, 9999): return s
        if a <= n < b - self.delta: return s + self.delta
        if b - self.delta <= n < b: return s.replace(fold=1)
        return s

class Sub(datetime.datetime):
    "a subclass of datetime"

def zones():
    z = []
    try:
        import zoneinfo
        for n in ("Europe/Berlin", "America/St_Johns", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "America/New_York", "Africa/Monrovia"):
            try: z.append(zoneinfo.ZoneInfo(n))
            except Exception: pass
    except ImportError: pass
    return z
ZONES = zones()

TZ_KINDS = ["utc", "fixed-whole", "fixed-half", "fixed-seconds", "fixed-micro", "edge", "custom", "dst", "zone", "subclass"]
def tz(R, kind):
    if kind == "utc": return UTC
    if kind == "fixed-whole": return datetime.timezone(TD(hours=R.randrange(-12, 15)))
    if kind == "fixed-half": return datetime.timezone(TD(minutes=R.choice([-570, -210, -30, 30, 330, 345, 525, 765])))
    if kind == "fixed-seconds": return datetime.timezone(TD(seconds=R.randrange(-86399, 86400)))
    if kind == "fixed-micro": return datetime.timezone(TD(seconds=R.randrange(-40000, 40000), microseconds=R.randrange(1000000)))
    if kind == "edge": return datetime.timezone(R.choice([1, -1]) * TD(hours=23, minutes=59, seconds=59))
    if kind == "custom": return Fixed(TD(minutes=R.randrange(-840, 841)))
    if kind == "dst": return Dst(TD(hours=R.randrange(-11, 13)))
    if kind == "zone": return R.choice(ZONES) if ZONES else Dst(TD(hours=1))
    if kind == "subclass": return UTC
def present(R, t, kind):
    "the UTC instant t written in a timezone of the given kind, or None if it is out of range there"
    try:
        r = t.astimezone(tz(R, kind))
        if kind == "subclass": r = Sub(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo, fold=r.fold)
        if r.astimezone(UTC) != t or (r - t) != TD(0): return None
        return r
    except (OverflowError, ValueError): return None
def some_tz(R, t, kinds=TZ_KINDS):
    for _ in range(8):
        r = present(R, t, R.choice(kinds))
        if r is not None: return r
    return t

# --- instants ---------------------------------------------------------------
YEARS = [1, 2, 4, 5, 100, 400, 1000, 1500, 1582, 1583, 1600, 1700, 1752, 1800, 1858, 1899, 1900, 1904, 1950, 1958, 1969, 1970, 1971, 1972, 1973, 1974, 1979, 1980, 1981,
         1985, 1990, 1996, 1999, 2000, 2001, 2003, 2004, 2005, 2008, 2012, 2013, 2014, 2015, 2016, 2017, 2020, 2024, 2025, 2026, 2027, 2030, 2037, 2038, 2050, 2099, 2100, 2106, 2200,
         2400, 3000, 4000, 5000, 6000, 8000, 9000, 9998, 9999]
MODERN = [1950, 1972, 1973, 1975, 1980, 1983, 1987, 1990, 1994, 1999, 2000, 2001, 2004, 2008, 2010, 2012, 2013, 2014, 2015, 2016, 2017, 2019, 2020, 2021, 2023, 2024, 2025, 2026]
ERAS = ["far-past", "past", "before-tables", "tables", "recent", "after-tables", "future", "far-future"]
def year(R, era):
    if era == "far-past": return R.choice([1, 2, 3, 4, 5, 8, 99, 100, 101, 399, 400, R.randrange(1, 1000)])
    if era == "past": return R.choice([1000, 1500, 1581, 1582, 1583, 1599, 1600, 1700, 1800, R.randrange(1000, 1900)])
    if era == "before-tables": return R.randrange(1900, 1972)
    if era == "tables": return R.randrange(1972, 2015)
    if era == "recent": return R.randrange(2014, 2027)
    if era == "after-tables": return R.randrange(2026, 2100)
    if era == "future": return R.choice([2100, 2101, 2200, 2400, 3000, R.randrange(2100, 4000)])
    return R.choice([4000, 9998, 9999, R.randrange(4000, 10000)])
DAYS = ["jan1", "dec31", "feb28", "feb29", "mar1", "jun30", "jul1", "solstice-n", "solstice-s", "equinox", "any"]
def leapyear(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def day(R, y, kind):
    return {"jan1": (1, 1), "dec31": (12, 31), "feb28": (2, 28), "feb29": (2, 29) if leapyear(y) else (2, 28), "mar1": (3, 1), "jun30": (6, 30), "jul1": (7, 1),
            "solstice-n": (6, R.randrange(20, 23)), "solstice-s": (12, R.randrange(20, 23)), "equinox": (R.choice([3, 9]), R.randrange(19, 25)),
            "any": (R.randrange(1, 13), R.randrange(1, 29))}[kind]
TODS = ["midnight", "just-after", "just-before", "noon", "second", "micro"]
def tod(R, kind):
    return {"midnight": (0, 0, 0, 0), "just-after": (0, 0, 0, 1), "just-before": (23, 59, 59, 999999), "noon": (12, 0, 0, 0),
            "second": (R.randrange(24), R.randrange(60), R.randrange(60), 0), "micro": (R.randrange(24), R.randrange(60), R.randrange(60), R.randrange(1000000))}[kind]
def instant(R, era=None, dk=None, tk=None):
    y = year(R, era or R.choice(ERAS))
    m, d = day(R, y, dk or R.choice(DAYS))
    return D(y, m, d, *tod(R, tk or R.choice(TODS + ["micro"] * 4)), tzinfo=UTC)
def modern(R): return instant(R, R.choice(["before-tables", "tables", "tables", "recent", "recent", "after-tables"]))

# --- places -----------------------------------------------------------------
LATS = ["south-pole", "near-south-pole", "antarctic", "antarctic-circle", "south-mid", "south-tropic", "south-low", "equator", "north-low", "north-tropic", "north-mid", "arctic-circle", "arctic", "near-north-pole", "north-pole", "integer"]
def lat(R, k):
    return {"south-pole": lambda: -90.0, "near-south-pole": lambda: -90 + 10 ** R.uniform(-9, -1), "antarctic": lambda: R.uniform(-89, -67), "antarctic-circle": lambda: -66.56 + R.uniform(-.9, .9),
            "south-mid": lambda: R.uniform(-65, -24), "south-tropic": lambda: R.choice([-23.45, -23.4367, -23.44 + R.uniform(-.1, .1)]), "south-low": lambda: R.uniform(-23, -.1),
            "equator": lambda: R.choice([0.0, 0, -0.0, 1e-9, -1e-9, 1e-4]), "north-low": lambda: R.uniform(.1, 23), "north-tropic": lambda: R.choice([23.45, 23.4367, 23.44 + R.uniform(-.1, .1)]),
            "north-mid": lambda: R.uniform(24, 65), "arctic-circle": lambda: 66.56 + R.uniform(-.9, .9), "arctic": lambda: R.uniform(67, 89), "near-north-pole": lambda: 90 - 10 ** R.uniform(-9, -1),
            "north-pole": lambda: 90.0, "integer": lambda: R.randrange(-90, 91)}[k]()
LONS = ["west", "east", "greenwich", "dateline", "over-180", "to-360", "turns", "integer"]
def lon(R, k):
    return {"west": lambda: R.uniform(-180, 0), "east": lambda: R.uniform(0, 180), "greenwich": lambda: R.choice([0.0, 0, -0.0, 1e-9, -1e-9]),
            "dateline": lambda: R.choice([180, -180, 180.0, -180.0, 179.999999, -179.999999]), "over-180": lambda: R.uniform(180, 359.9999), "to-360": lambda: R.choice([360, 359.99999999, -360, 360.0, -200.0, 270]),
            "turns": lambda: R.choice([-1, 1]) * R.uniform(360, 3600), "integer": lambda: R.randrange(-180, 181)}[k]()
ELEVS = ["zero", "below-sea", "low", "high", "extreme", "integer"]
def elev(R, k):
    return {"zero": lambda: R.choice([0, 0.0]), "below-sea": lambda: R.uniform(-500, -1), "low": lambda: R.uniform(0, 500), "high": lambda: R.uniform(500, 9000), "extreme": lambda: R.choice([20000.0, 20000, -500.0, R.uniform(9000, 20000)]),
            "integer": lambda: R.randrange(0, 9000)}[k]()
ATMS = ["standard", "cold-dense", "hot-thin", "odd", "vacuum"]
def atm(R, k):
    "(temperature, pressure)"
    return {"standard": lambda: (288.15, 101325.0), "cold-dense": lambda: (R.uniform(190, 260), R.uniform(99000, 109000)), "hot-thin": lambda: (R.uniform(290, 330), R.uniform(30000, 90000)),
            "odd": lambda: (R.choice([273.15, 283, 300]), R.choice([82000, 101000, 101325])), "vacuum": lambda: (R.uniform(200, 300), R.choice([0, 0.0, 1.0]))}[k]()
def place(R): return lat(R, R.choice(LATS)), lon(R, R.choice(LONS))

def style(R, names, values, force=None):
    "passes values for the named parameters positionally up to a random point, the rest by keyword in random order"
    n = len(names)
    cut = R.randrange(n + 1) if force is None else force
    kw = list(zip(names[cut:], values[cut:]))
    R.shuffle(kw)
    return list(values[:cut]), dict(kw)
