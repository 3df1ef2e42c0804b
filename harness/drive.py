"""Runs the real code for one property and records sessions for spec/Trace.tla, one JSON session per line.

drive.py PROP PART NPARTS TIER SEED OUT SCENARIOS(json: model name -> file of scenario lines)
"""
import sys, os, json, random, datetime, math, itertools, copy, io, runpy, tempfile, contextlib, types, functools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rec, sigs, gen
from gen import D, TD, UTC
from rec import Rec, enc, enc_arg, enc_dt, enc_exc, limbs, guarded

SCALE = {"C20": 1}      # of the quick budgets; 3 unless given
class Ctx:
    def __init__(self, prop, part, nparts, tier, seed, out, scn):
        self.prop, self.part, self.nparts, self.tier, self.seed = prop, part, nparts, tier, seed
        self.R = random.Random("%s/%s/%s" % (seed, prop, part))
        self.f = open(out, "w")
        self.scn = scn
        self.n = 0
        self.samples = 0
    @property
    def quick(self): return self.tier == "quick"
    def share(self, quick, thorough):
        "this part's share of a total number of cases"
        n = min(SCALE.get(self.prop, 3) * quick, thorough) if self.quick else thorough
        return n // self.nparts + (1 if self.part < n % self.nparts else 0)
    def words(self, model):
        if model not in self.scn: return []
        with open(self.scn[model]) as f: return [l.rstrip("\n") for l in f]
    def mine(self, seq):
        return [x for k, x in enumerate(seq) if k % self.nparts == self.part]
    def emit(self, s):
        j = s.json() if isinstance(s, Rec) else s
        if not j["ev"]: return
        j["id"] = self.part * 10**7 + self.n
        self.n += 1
        self.f.write(json.dumps(j, separators=(",", ":")) + "\n")
    def rec(self, mode=None):
        "a session, with a backend chosen at random unless given"
        m = mode or (self.R.choice(["numpy", "math"]) if rec.np is not None else "math")
        if rec.MODS["numeric"].current_mod != m: getattr(rec.pysolar, "use_" + m)()
        return Rec(0, m)

def call(R, s, op, v, opt=.5):
    "a call in a random style: some leading arguments by position, the rest by keyword in any order; options sometimes left out"
    req, o = sigs.names(op)
    al = req + o
    cut = R.choice([len(req)] * 3 + [0] + list(range(len(al) + 1)))
    pos = [v[n] for n in al[:cut]]
    kw = [(n, v[n]) for n in al[cut:] if n in req or R.random() < opt]
    R.shuffle(kw)
    return s.call(op, *pos, **dict(kw))

def num(R, x):
    "the same number as another type, now and then"
    if rec.np is not None and R.random() < .06: return rec.np.float64(x)
    if isinstance(x, float) and x.is_integer() and abs(x) < 1e9 and R.random() < .5: return int(x)
    return x

def sky_values(R, lat, lon, when, el, te, pr):
    return dict(latitude_deg=lat, longitude_deg=lon, when=when, elevation=el, temperature=te, pressure=pr,
                TY=R.choice([365, 365.0, 365.25, 366, 360]), AM=R.choice([2.0, 1, 1.5, 0, 0.0, R.uniform(0, 4)]), TL=R.choice([1.0, 2, 3.5, 0, 0.0, R.uniform(.5, 7)]), SC=R.choice([1367.0, 1367, 1361, R.uniform(1000, 1500)]))

def pick_place(R, edge=.5):
    if R.random() < edge: return gen.place(R)
    return R.uniform(-90, 90), R.uniform(-180, 180)
def pick_el(R): return gen.elev(R, R.choice(gen.ELEVS))
def pick_atm(R): return gen.atm(R, R.choice(gen.ATMS))

# ----------------------------------------------------------------------------------------------------------------
def months(c, kind):
    op = "get_leap_seconds" if kind == "leap" else "get_delta_t"
    R = c.R
    todo = set()
    for w in c.words("Leap"):
        y, m = w.split("|"); todo.add((int(y), int(m)))
    full = [(y, m) for y in range(1, 10000) for m in range(1, 13)]
    if c.quick:
        todo |= {(y, m) for y in range(1955, 2040) for m in range(1, 13)}
        todo |= {(y, m) for y in (1, 2, 4, 100, 400, 1582, 1600, 1700, 1752, 1800, 1900, 1972, 2000, 2100, 2400, 9998, 9999) for m in range(1, 13)}
        todo |= set(random.Random(c.seed).sample(full, 1500))
        todo |= {(y, R0) for y in range(1, 10000, 7) for R0 in (1, 6, 7, 12)}
    else: todo = set(full)
    n = 0
    s = None
    for y, m in c.mine(sorted(todo)):
        if n % 60 == 0:
            if s: c.emit(s)
            s = c.rec()
        n += 1
        first = D(y, m, 1, tzinfo=UTC)
        last = (D(y + (m == 12), m % 12 + 1, 1, tzinfo=UTC) if (y, m) != (9999, 12) else D(9999, 12, 31, 23, 59, 59, 999999, tzinfo=UTC) + TD(0)) - (TD(microseconds=1) if (y, m) != (9999, 12) else TD(0))
        span = last - first
        probes = [first, last, first + R.random() * span, first + TD(seconds=R.randrange(86400)), last - TD(seconds=R.randrange(86400)), first + TD(days=R.randrange(1, 27)) ]
        if not c.quick: probes += [first + R.random() * span for _ in range(4)]
        v, w = [], []
        s2 = Rec(0, s.mode)
        for k, t in enumerate(probes):
            t = gen.some_tz(R, t) if k < 2 or R.random() < .6 else t
            if R.random() < .2: s2.call(op, when=t)
            else: s2.call(op, t)
            e = s2.ev[-1]
            if e["r"] not in v: v.append(e["r"])
            if "w" in e and (e["w"] > 0) not in w: w.append(e["w"] > 0)
        s.add(t="month", kind=kind, y=y, m=m, v=v, w=w)
    if s: c.emit(s)
    for _ in range(c.share(60, 1000)):
        s = c.rec()
        for _ in range(20):
            t = gen.some_tz(R, gen.instant(R))
            call(R, s, op, {"when": t})
        c.emit(s)
    # around the table's ends and the announced leap seconds, to the microsecond
    edges = [D(y, m, 1, tzinfo=UTC) for y in list(range(1971, 2028)) for m in (1, 2, 4, 5, 6, 7, 12)]
    for t in c.mine(edges):
        s = c.rec()
        for d in (-86400, -3600, -1, -1e-6, 0, 1e-6, .5, 1, 59.999999, 3600, 86399):
            s.call(op, gen.some_tz(R, t + TD(seconds=d)))
        c.emit(s)

def C01(c): months(c, "leap")
def C02(c): months(c, "delta")

def C03(c):
    R = c.R
    for _ in range(c.share(450, 12000)):
        s = c.rec()
        for _ in range(6):
            t = gen.instant(R)
            for op in ("get_julian_solar_day", "get_julian_ephemeris_day"):
                jd = call(R, s, op, {"when": gen.some_tz(R, t)})
            if isinstance(jd, float):
                s.call("get_julian_century", jd); jce = s.call("get_julian_ephemeris_century", jd)
                if isinstance(jce, float): s.call("get_julian_ephemeris_millennium", jce)
        for x in (2451545.0, 2451545, 0, 2415020.5, 1721425.5, R.uniform(1.7e6, 5.4e6), 2451545.0 + R.uniform(-1, 1), R.uniform(-1e6, 1e8)):
            s.call("get_julian_century", x); s.call("get_julian_ephemeris_century", x)
        for x in (0, 0.0, 1.0, -1.0, R.uniform(-20, 80)): s.call("get_julian_ephemeris_millennium", x)
        c.emit(s)
    # seconds around midnights and month ends
    for _ in range(c.share(250, 4000)):
        s = c.rec()
        t = gen.instant(R, R.choice(["tables", "tables", "recent", "before-tables", "future"]), R.choice(gen.DAYS), "midnight")
        for d in (-1e-6, 0, 1e-6, -.5, .25, 1, -1, 43200, 43199.999999, 86399.5):
            for op in ("get_julian_solar_day", "get_julian_ephemeris_day"): s.call(op, gen.some_tz(R, t + TD(seconds=d)))
        c.emit(s)

# --- C04 --------------------------------------------------------------------------------------------------------
C04OPS = [o for o in sigs.GATED if o not in rec.RISE] + ["get_radiation_direct"]
def fold_instant(R):
    y = R.randrange(1975, 2030)
    k = R.randrange(4)
    if k == 0:      # hand-written daylight saving time around its ends
        base = TD(hours=R.randrange(-11, 13))
        e = R.choice([D(y, 3, 31, 2), D(y, 10, 31, 2)])
        return (e - base).replace(tzinfo=UTC) + TD(seconds=R.randrange(-7200, 7200)), gen.Dst(base)
    if k == 1:      # Berlin
        d = D(y, R.choice([3, 10]), 31, 1, tzinfo=UTC)
        while d.weekday() != 6: d -= TD(days=1)
        return d + TD(seconds=R.randrange(-5400, 5400)), gen.ZONES[0] if gen.ZONES else gen.Dst(TD(hours=1))
    if k == 2: return D(y, 1, 1, tzinfo=UTC) + TD(seconds=R.randrange(-50000, 50000), microseconds=R.randrange(10**6)), gen.tz(R, "fixed-seconds")
    return gen.instant(R, "tables", R.choice(gen.DAYS), R.choice(gen.TODS)), gen.tz(R, "edge")
def C04(c):
    R = c.R
    for i in range(c.share(330, 6000)):
        s = c.rec()
        tz = None
        if i % 3 == 0: t, tz = fold_instant(R)
        else: t = gen.instant(R)
        lat, lon = pick_place(R, .3)
        el, (te, pr) = pick_el(R), pick_atm(R)
        alts = R.choice([R.uniform(-90, 90), R.uniform(0, 90)])
        ops = C04OPS
        ws = [t]
        if tz is not None:
            try:
                x = t.astimezone(tz)
                if x - t == TD(0) and x.astimezone(UTC) == t: ws.append(x)
            except (OverflowError, ValueError): pass
        for _ in range(5): ws.append(gen.some_tz(R, t))
        R.shuffle(ws)
        v0 = sky_values(R, lat, lon, t, el, te, pr)
        v0.update(altitude_deg=alts, ghi_data=R.uniform(0, 1000))
        for op in ops:
            req, o = sigs.names(op)
            for w in ws[: 7 if "fast" in op or op.startswith("get_") else 3]:
                k = {n: v0[n] for n in req}
                k["when"] = w
                with rec.warnings.catch_warnings():
                    rec.warnings.simplefilter("ignore")
                    r, x = guarded(rec.fn(op), [k[n] for n in req], {})
                s.add(t="agree", key=op, r=enc(r) if x is None else enc_exc(x))
        for w in ws[:3]:
            v = dict(v0, when=w)
            for op in ("get_hour_angle", "get_azimuth_fast", "get_radiation_direct", "declination_degree", "get_julian_solar_day", "get_leap_seconds", "get_delta_t", "mean_earth_sun_distance", "extraterrestrial_irrad"):
                call(R, s, op, v)
            call(R, s, "get_position", v)
        c.emit(s)

# --- C05 --------------------------------------------------------------------------------------------------------
class Poison:
    "an argument whose use is an error other than the expected one"
    def boom(self, *a, **k): raise ArithmeticError("computed with an argument before checking the datetime")
    for n in ("add radd sub rsub mul rmul truediv rtruediv floordiv mod pow rpow neg pos abs float int index lt le gt ge round divmod complex".split()):
        locals()["__%s__" % n] = boom
def gate_value(R, kind, aware):
    n = aware.replace(tzinfo=None)
    return {"naive": n, "naive-subclass": gen.Sub(n.year, n.month, n.day, n.hour, n.minute), "naive-fold": n.replace(fold=1), "none": None, "date": n.date(), "string": n.isoformat(),
            "int": 1234567890, "float": n.hour + .5, "time": n.time(), "aware-time": aware.timetz(), "offsetless": n.replace(tzinfo=gen.Nowhere()),
            "clock": types.SimpleNamespace(tzinfo=aware.tzinfo, year=n.year, month=n.month, day=n.day), "aware": aware, "aware-subclass": gen.Sub(aware.year, aware.month, aware.day, aware.hour, aware.minute, aware.second, aware.microsecond, aware.tzinfo, fold=aware.fold)}.get(kind)
def decorated(R, s, word):
    "a behaviour of the Decor model: a function of our own, decorated, and called"
    n, kwonly, guarded, outer, npos, left, value, _ = word.split("|")
    n, kwonly, npos, left = int(n), int(kwonly), int(npos), int(left)
    guarded, outer = ([int(k) for k in g.strip("{}").split(",")] for g in (guarded, outer))
    value = [v.strip(' "\\') for v in value.strip("<>").split(",")]
    names = R.sample(["when", "start", "end", "place", "self", "dt"], n)
    par = ["%s%s" % (m, "=None" if left and (k == left or left < k <= n - kwonly) else "") for k, m in enumerate(names, 1)]
    if kwonly: par.insert(n - kwonly, "*")
    slash = R.random() < .15 and npos and not left
    if slash: par.insert(npos, "/")
    names_guarded = [names[k - 1] for k in outer]; R.shuffle(names_guarded)
    if R.random() < .2: names_guarded.insert(R.randrange(len(names_guarded) + 1), "nosuch")
    ran = []
    what = object()
    env = dict(ran=ran, what=what)
    if R.random() < .2: par.append("**more")
    exec("def f(%s):\n    'says'\n    ran.append((%s,))\n    return what" % (", ".join(par), ", ".join(names)), env)
    import importlib, functools
    check_aware_dt = importlib.import_module("pysolar.tzinfo_check").check_aware_dt
    g = env["f"]
    if len(outer) < len(guarded): g = check_aware_dt(*[names[k - 1] for k in guarded if k not in outer])(g)
    if R.random() < .2:
        h = g
        @functools.wraps(h)
        def g(*p, **k): return h(*p, **k)
    g = check_aware_dt(*names_guarded)(g)
    def one(v):
        t = gen.some_tz(R, gen.modern(R))
        if v == "naive": return t.replace(tzinfo=None) if R.random() < .7 else t.replace(tzinfo=gen.Nowhere()) if R.random() < .5 else gen.Sub(t.year, t.month, t.day)
        if v == "other": return R.choice([None, "2020-03-04", 7, 2.5, t.date(), [t], t.timetz()])
        if v == "aware" and rec.np is not None and R.random() < .15: return rec.np.array([t.replace(tzinfo=None)], dtype="datetime64[s]")
        return t if v == "aware" else R.choice([t, t.replace(tzinfo=None), 3, None])
    vals = [one(v) for v in value]
    p = vals[:npos]
    kw = [(names[k - 1], vals[k - 1]) for k in range(npos + 1, n + 1) if k != left]
    R.shuffle(kw)
    r, x = guarded_call(g, p, dict(kw))
    want = tuple(None if k == left else vals[k - 1] for k in range(1, n + 1))
    e = dict(t="guarded", given=[value[k - 1] for k in guarded if k != left], ran=bool(ran), same=r is what and len(ran) == 1 and all(a is b for a, b in zip(ran[0], want)), meta=(g.__name__, g.__doc__) == ("f", "says"))
    if x is not None: e["e"] = enc_exc(x)["e"]
    if hasattr(x, "argname"):                                       # whom the refusal blames
        e["blamed"] = value[names.index(x.argname)] if x.argname in names and getattr(x, "dt", None) is vals[names.index(x.argname)] else "nobody"
    s.add(**e)
guarded_call = guarded
def C05(c):
    R = c.R
    words = c.mine(c.words("Gate"))
    reps = 1 if c.quick else 8
    for w in words * reps:
        f, kind, style, outcome = w.split("|")
        op = sigs.GATED[int(f) - 1]
        req, opt = sigs.names(op)
        t = gen.some_tz(R, gen.instant(R, R.choice(["tables", "recent", "before-tables", "after-tables"])))
        lat, lon = R.uniform(-60, 60), R.uniform(-180, 180)
        el, (te, pr) = pick_el(R), gen.atm(R, "standard")
        v = sky_values(R, lat, lon, t, el, te, pr)
        v["ghi_data"] = R.uniform(0, 900)
        s = c.rec()
        if outcome == "body":
            v["when"] = gate_value(R, kind, t)
            for mode in ("plain", "opt"):
                k = {n: v[n] for n in req + (opt if mode == "opt" else [])}
                before = copy.copy(k)
                names = list(k)
                if style == "all-keyword": p, kw = [], k
                elif style == "keyword":
                    i = names.index("when"); p, kw = [k[n] for n in names[:i]], {n: k[n] for n in names[i:]}
                else: p, kw = [k[n] for n in names], {}
                if op == "clear_index": v["ghi_data"] = 500.
                r = s.call(op, *p, **kw)
                s.add(t="memo", key="arg", val=repr(sorted(before.items(), key=str)), mut=repr(sorted(k.items(), key=str)) != repr(sorted(before.items(), key=str)))
                s.add(t="forget")
            c.emit(s); continue
        for attempt in range(4):
            vals = dict(v)
            others = [n for n in req + opt if n != "when"]
            how = attempt
            for n in others:
                if how == 1: vals[n] = Poison()
                elif how == 2: vals[n] = R.choice([None, "x", float("nan"), Poison(), 1e308])
            if kind == "missing":
                names = [n for n in req if n != "when"]
                keep = [] if how == 3 else [n for n in names if sigs.names(op)[0].index(n) < req.index("when")] if style == "positional" else names
                extra = [n for n in opt if R.random() < .4]
                if style == "positional" : p, kw = [vals[n] for n in keep], {}
                else: p, kw = [], {n: vals[n] for n in keep + extra}
                s.refused("TypeError", rec.fn(op), *p, **kw)
                continue
            vals["when"] = gate_value(R, kind, t)
            names = req + [n for n in opt if how and R.random() < .5]
            if style == "positional":
                i = R.randrange(len(opt) + 1)
                p, kw = [vals[n] for n in req + opt[:i]], {n: vals[n] for n in opt[i:] if R.random() < .5}
            elif style == "keyword":
                i = R.randrange(req.index("when") + 1)
                p, kw = [vals[n] for n in req[:i]], {n: vals[n] for n in names[i:]}
            else: p, kw = [], {n: vals[n] for n in R.sample(names, len(names))}
            s.refused("NoTimeZoneInfoError" if kind.startswith("naive") or kind == "offsetless" else "ValueError", rec.fn(op), *p, blame=("when", vals["when"]), **kw)
        c.emit(s)
    # the check in front of functions of somebody else
    for ch in chunks(c.mine(c.words("Decor")) * reps, 30):
        s = c.rec()
        for w in ch: decorated(R, s, w)
        c.emit(s)
    # arrays of datetime64 pass through untouched
    if rec.np is not None:
        np = rec.np
        for _ in range(c.share(60, 600)):
            s = c.rec("numpy")
            ts = [gen.modern(R).replace(tzinfo=None) for _ in range(3)]
            a = np.array(ts, dtype="datetime64[us]")
            b = a.copy()
            lat, lon = R.uniform(-80, 80), R.uniform(-180, 180)
            for op, k in (("get_hour_angle", dict(when=a, longitude_deg=lon)), ("get_solar_time", dict(longitude_deg=lon, when=a)), ("get_altitude_fast", dict(latitude_deg=lat, longitude_deg=lon, when=a)),
                          ("get_azimuth_fast", dict(latitude_deg=lat, longitude_deg=lon, when=a))):
                if R.random() < .5: s.call(op, **k)
                else: s.call(op, *k.values())
                s.add(t="memo", key="array", val="", mut=not np.array_equal(a, b))
            c.emit(s)

# --- C06 .. C10, C24: the stages ----------------------------------------------------------------------------------
def jmes(c, quick, thorough):
    R = c.R
    fixed = [0, 0.0, 1, -1, 1e-9, -1e-9, 0.0037927819922933584, -2, 8, -1.9999, 7.9999, 0.5, -0.5, 0.003, 0.026]
    out = c.mine(fixed)
    for _ in range(c.share(quick, thorough)): out.append(R.choice([R.uniform(-2, 8), R.uniform(-.1, .1), R.uniform(-1, 1), R.uniform(-2, 8), R.choice([-1, 1]) * 10 ** R.uniform(-6, .3)]))
    return out
def chunks(xs, n):
    for i in range(0, len(xs), n): yield xs[i:i + n]
def C06(c):
    R = c.R
    for ch in chunks(jmes(c, 1400, 30000), 6):
        s = c.rec()
        for x in ch:
            x = num(R, x)
            for op in ("get_heliocentric_longitude", "get_heliocentric_latitude", "get_sun_earth_distance", "get_geocentric_longitude", "get_geocentric_latitude"): s.call(op, x)
        c.emit(s)

def nut(R):
    k = R.randrange(4)
    if k == 0: return {"longitude": 0.0, "obliquity": 0.0}
    if k == 1: return {"longitude": R.uniform(-.006, .006), "obliquity": R.uniform(-.003, .003)}
    return {"longitude": R.uniform(-1, 1), "obliquity": R.uniform(-1, 1)}
def C07(c):
    R = c.R
    fixed = [0, 0.0, 1, -1, -20, 80, 0.03792779869191517, 1e-6, -1e-6, 79.99]
    js = c.mine(fixed) + [R.choice([R.uniform(-20, 80), R.uniform(-1, 1), R.uniform(-.3, .3), R.choice([-1, 1]) * 10 ** R.uniform(-5, 1.9)]) for _ in range(c.share(1100, 25000))]
    for ch in chunks(js, 6):
        s = c.rec()
        for jce in ch:
            n = s.call("get_nutation", num(R, jce))
            if not isinstance(n, dict) or R.random() < .3: n = nut(R)
            jme = jce / 10
            s.call("get_true_ecliptic_obliquity", jme, n)
            s.call("get_true_ecliptic_obliquity", R.choice([R.uniform(-2, 8), R.uniform(-.1, .1), 0]), nut(R))
            jd = 2451545.0 + jce * 36525
            s.call("get_mean_sidereal_time", jd)
            s.call("get_mean_sidereal_time", R.choice([2451545.0, 2451545, R.uniform(1.7e6, 5.4e6), R.uniform(2.44e6, 2.47e6)]))
            s.call("get_apparent_sidereal_time", jd, jme, n)
            s.call("get_apparent_sidereal_time", R.uniform(2.4e6, 2.5e6), R.uniform(-.1, .1), nut(R))
            r = R.choice([1, 1.0, R.uniform(.98, 1.02), R.uniform(.5, 2)])
            ab = s.call("get_aberration_correction", r)
            s.call("get_apparent_sun_longitude", R.uniform(0, 360), n, ab if isinstance(ab, float) else -.0057)
            s.call("get_apparent_sun_longitude", R.uniform(-400, 800), nut(R), R.uniform(-1, 1))
        c.emit(s)

def ang(R, lo=-720, hi=1080):
    return R.choice([R.uniform(0, 360), R.uniform(lo, hi), R.choice([0, 90, 180, 270, 360, -90, -180, 45, 135, 225, 315]), R.choice([0., 90., 180., 270., 360.]) + R.choice([-1, 1]) * 10 ** R.uniform(-9, 0)])
def sym(R, top=90):
    return R.choice([R.uniform(-top, top), R.uniform(-top, top), 0, 0.0, top * R.choice([-1, 1]), R.choice([-1, 1]) * (top - 10 ** R.uniform(-9, 0)), R.choice([-1, 1]) * 10 ** R.uniform(-9, 1)])
def C08(c):
    R = c.R
    for _ in range(c.share(900, 20000)):
        s = c.rec()
        for _ in range(4):
            lam = ang(R); eps = R.choice([23.4393, R.uniform(22, 24.5), R.uniform(22, 24.5), R.uniform(0, 90)]); beta = R.choice([0, 0.0001, -0.0003, R.uniform(-.001, .001), R.uniform(-60, 60)])
            al = s.call("get_geocentric_sun_right_ascension", lam, eps, beta)
            de = s.call("get_geocentric_sun_declination", lam, eps, beta)
            lat = sym(R); el = pick_el(R) if R.random() < .85 else 10 ** R.uniform(4, 8)
            s.call("get_flattened_latitude", lat)
            x = s.call("get_projected_radial_distance", el, lat); y = s.call("get_projected_axial_distance", el, lat)
            r = R.choice([1, R.uniform(.98, 1.02), R.uniform(.98, 1.02), R.uniform(.3, 3)])
            xi = s.call("get_equatorial_horizontal_parallax", r)
            if R.random() < .4: xi = R.uniform(0, R.choice([2, 2, 89]))
            nu = ang(R, 0, 360); lon = gen.lon(R, R.choice(gen.LONS)) if R.random() < .9 else R.choice([-1, 1]) * 10 ** R.uniform(4, 18)
            ok = all(isinstance(z, (int, float)) for z in (al, de, x, y, xi))
            if not ok: continue
            H = s.call("get_local_hour_angle", nu, lon, R.choice([al, ang(R, 0, 360)]))
            if R.random() < .4: H = ang(R)
            d = R.choice([de, R.uniform(-24, 24), R.uniform(-85, 85)])
            if isinstance(H, (int, float)) and xi > 2:    # away from where a parallax has no direction
                far = complex(math.cos(math.radians(d)), 0) - x * math.sin(math.radians(xi)) * complex(math.cos(math.radians(H)), math.sin(math.radians(H)))
                if abs(far) < .2: xi = R.uniform(0, 2)
            da = s.call("get_parallax_sun_right_ascension", x, xi, H, d)
            if R.random() < .2: da = R.uniform(-.01, .01)
            s.call("get_topocentric_local_hour_angle", H, da)
            s.call("get_topocentric_sun_declination", d, y, xi, da, H)
            s.call("get_topocentric_sun_right_ascension", x, xi, H, lam, eps, beta)
        c.emit(s)

def C09(c):
    R = c.R
    for _ in range(c.share(1100, 25000)):
        s = c.rec()
        for _ in range(5):
            lat = R.choice([sym(R), R.uniform(-89, 89)]); d = R.choice([R.uniform(-23.5, 23.5), R.uniform(-23.5, 23.5), sym(R, 89.9)]); H = ang(R)
            k = R.randrange(8)
            if k == 0: H = R.choice([0, 0.0, 360, 1e-7, -1e-7]); d = lat if abs(lat) < 89 else 20.   # Sun in the zenith
            elif k == 1: H = 180; d = -lat if abs(lat) < 89 else -20.                          # and in the nadir
            elif k == 2 and abs(lat) < 60: d = R.uniform(-23, 23); H = math.degrees(math.acos(max(-1, min(1, -math.tan(math.radians(lat)) * math.tan(math.radians(d)))))) + R.uniform(-3, 3)  # horizon
            lat, d, H = num(R, lat), num(R, d), num(R, H)
            s.call("get_topocentric_elevation_angle", lat, d, H)
            s.call("get_topocentric_azimuth_angle", H, lat, d)
            te, pr = pick_atm(R)
            s.call("get_topocentric_zenith_angle", lat, d, H, pr, te)
        c.emit(s)

def C10(c):
    R = c.R
    thr = -(0.26667 + 0.5667)
    specials = [thr, -5.11, -5.110000000000001, -5.109999, -0.83337, -0.8333, -0.8334, 0, 0.0, -0.0, 90, -90, 89.9999, 1e-9, -1e-9, -0.5667, -0.26667, -0.575, -1, -10.3, -4.9, -5.3, 0.1, -0.83, -0.84]
    for v in c.mine(specials):
        s = c.rec()
        for d in (0, 1e-13, -1e-13, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3):
            e = v + d
            if -90 <= e <= 90: s.call("get_refraction_correction", 101325.0, 288.15, e); s.call("get_refraction_correction", *reversed(pick_atm(R)), e)
        c.emit(s)
    # a sweep of the whole range
    n = 3000 if c.quick else 60000
    xs = [-90 + 180 * (k + R.random()) / n for k in range(n)]
    near = [thr + R.choice([-1, 1]) * 10 ** R.uniform(-12, 1) for _ in range(n // 3)] + [R.uniform(-7, 3) for _ in range(n // 3)]
    for ch in chunks(c.mine(xs + near), 20):
        s = c.rec()
        for e in ch:
            te, pr = pick_atm(R) if R.random() < .7 else (R.uniform(150, 350), R.choice([R.uniform(0, 120000), R.uniform(0, 10)]))
            if R.random() < .25: te, pr = 10 ** R.uniform(-1, 4), R.choice([10 ** R.uniform(-6, 8), 101325.])
            s.call("get_refraction_correction", num(R, pr), num(R, te), num(R, e))
        c.emit(s)

def C24(c):
    R = c.R
    for _ in range(c.share(700, 20000)):
        s = c.rec()
        for _ in range(12):
            z = R.choice([R.uniform(0, 90), R.uniform(0, 180), 0, 90, 180, 10 ** R.uniform(-9, 0)])
            sl = R.choice([0, 0.0, 90, R.uniform(0, 90), R.uniform(0, 180), 30, 10 ** R.uniform(-9, 0), -30, R.uniform(-90, 0), R.uniform(-180, 360)])
            so = R.choice([0, -10, 90, -90, 180, -180, R.uniform(-180, 180), R.uniform(-360, 360)])
            az = R.choice([R.uniform(0, 360), 0, 90, 180, 270, 360, R.uniform(-360, 720)])
            k = R.randrange(6)
            if k == 0: sl, so = z, az - 180        # faces the Sun
            elif k == 1: sl, so = z, az + 180
            elif k == 2: sl, so = 180 - z, az      # turned exactly away
            elif k == 3: sl, so = z, az
            if R.random() < .1: so, az = R.uniform(-2000, 2000), R.uniform(-2000, 2000)
            s.call("get_incidence_angle", num(R, z), num(R, sl), num(R, so), num(R, az))
        c.emit(s)

# --- C11, C28 ----------------------------------------------------------------------------------------------------
EPOS = ["get_position", "get_altitude", "get_azimuth", "get_topocentric_position"]
def C11(c):
    R = c.R
    words = c.words("Places")
    R.shuffle(words)
    k = 0
    for i in range(c.share(360, 8000)):
        t = gen.modern(R) if R.random() < .7 else gen.instant(R)
        s = c.rec()
        for _ in range(5):
            if words and R.random() < .6:
                a, b, e, at = [int(x) - 1 for x in words[k % len(words)].split(",")]; k += 1
                lat, lon, el, (te, pr) = gen.lat(R, gen.LATS[a]), gen.lon(R, gen.LONS[b]), gen.elev(R, gen.ELEVS[e]), gen.atm(R, gen.ATMS[at])
            else: lat, lon, el, (te, pr) = R.uniform(-90, 90), R.uniform(-180, 180), pick_el(R), pick_atm(R)
            if R.random() < .1: el = R.choice([-1, 1, 1, 1]) * 10 ** R.uniform(4, 8)         # in orbit, and deep down
            v = dict(latitude_deg=num(R, lat), longitude_deg=num(R, lon), when=gen.some_tz(R, t), elevation=num(R, el), temperature=num(R, te), pressure=num(R, pr))
            if el < -1e6: v["elevation"] = el = -el
            for op in EPOS if R.random() < .5 else R.sample(EPOS, 2): call(R, s, op, v)
            v["longitude_deg"] = v["longitude_deg"] + 360 * R.choice([-3, -2, -1, 1, 2, 3])
            call(R, s, R.choice(EPOS), v)
        c.emit(s)
    # the places and times of the observations of C12
    for ch in chunks([x for k, x in enumerate(usno()) if k % c.nparts == c.part and (not c.quick or R.random() < .04)], 20):
        s = c.rec()
        for d, h, la, lo, e, *_ in ch:
            t = gen.some_tz(R, D.strptime(d + " " + h, "%Y-%m-%d %H:%M:%S").replace(tzinfo=UTC))
            call(R, s, R.choice(EPOS), sky_values(R, float(la), float(lo), t, float(e), 288.15, 101325.))
        c.emit(s)
    # low Sun, where refraction and the horizon decide
    for i in range(c.share(60, 1000)):
        t = gen.modern(R)
        s = c.rec()
        for _ in range(8):
            lat, lon = R.uniform(-66, 66), R.uniform(-180, 180)
            with rec.warnings.catch_warnings():
                rec.warnings.simplefilter("ignore")
                a, x = guarded(rec.fn("get_altitude_fast"), (lat, lon, t), {})
                for _ in range(40):     # move west or east until the Sun is near the horizon
                    if x is not None or not isinstance(a, (int, float)) or abs(a) < 1.2: break
                    lon = lon + R.uniform(2, 9)
                    a, x = guarded(rec.fn("get_altitude_fast"), (lat, lon, t), {})
            el = pick_el(R); te, pr = pick_atm(R)
            v = dict(latitude_deg=lat, longitude_deg=lon, when=gen.some_tz(R, t), elevation=el, temperature=te, pressure=pr)
            call(R, s, "get_altitude", v); call(R, s, "get_position", v)
        c.emit(s)

RADOPS = ["get_radiation_direct", "mean_earth_sun_distance", "declination_degree", "extraterrestrial_irrad"]
def C28(c):
    R = c.R
    inst = c.mine(c.words("Instants"))
    places = c.words("Places")
    R.shuffle(places)
    k = 0
    for w in inst * (1 if c.quick else 8):
        er, dk, tk = [int(x) - 1 for x in w.split(",")]
        t = gen.instant(R, gen.ERAS[er], gen.DAYS[dk], gen.TODS[tk])
        s = c.rec()
        for j in range(5):
            a, b, e, at = [int(x) - 1 for x in places[k % len(places)].split(",")]; k += 1
            lat, lon, el, (te, pr) = gen.lat(R, gen.LATS[a]), gen.lon(R, gen.LONS[b]), gen.elev(R, gen.ELEVS[e]), gen.atm(R, gen.ATMS[at])
            if R.random() < .1: lon = R.choice([-1, 1]) * 10 ** R.uniform(4, 11)
            v = sky_values(R, lat, lon, gen.some_tz(R, t), el, te, pr)
            for op in ("get_position", R.choice(["get_altitude", "get_azimuth", "get_topocentric_position"])): p = call(R, s, op, v)
            for op in ("get_altitude_fast", "get_azimuth_fast", "get_hour_angle", "get_solar_time"): call(R, s, op, v)
            v["altitude_deg"] = R.choice([R.uniform(-90, 90), 0, 90, -90, 10 ** R.uniform(-12, 0), -10 ** R.uniform(-12, 0)])
            for op in RADOPS: call(R, s, op, v)
            if j == 0:
                for op in ("get_leap_seconds", "get_delta_t", "get_julian_solar_day", "get_julian_ephemeris_day"): call(R, s, op, dict(when=gen.some_tz(R, t)))
            if j < 2: call(R, s, R.choice(sigs.SKY), v)
        c.emit(s)
    # the first and last instants there are
    ends = [D(1, 1, 1, tzinfo=UTC), D(1, 1, 1, 0, 0, 0, 1, tzinfo=UTC), D(1, 12, 31, 23, 59, tzinfo=UTC), D(9999, 12, 31, 23, 59, 59, 999999, tzinfo=UTC), D(9999, 1, 1, tzinfo=UTC), D(1969, 12, 31, 23, 59, 59, 999999, tzinfo=UTC), D(1970, 1, 1, tzinfo=UTC)]
    for t in c.mine(ends):
        for m in ("numpy", "math"):
            s = c.rec(m)
            for lat, lon in ((90, 0), (-90, 0), (0, 180), (0, -180), (90.0, 1e6), (-89.9999999, -1e6)):
                v = sky_values(R, lat, lon, gen.some_tz(R, t), R.choice([-500, 20000, 0]), 288.15, 101325.0)
                for op in EPOS + ["get_altitude_fast", "get_azimuth_fast", "get_hour_angle"] + sigs.SKY: call(R, s, op, v)
                for a in (-90, 0, 90): s.call("get_radiation_direct", t, a)
            c.emit(s)

# --- C12 ----------------------------------------------------------------------------------------------------------
def usno():
    rows = []
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "usno_data_6259.txt")) as f:
        for l in f:
            x = l.split()
            if len(x) == 7: rows.append(x)
    return rows
def C12(c):
    rows = usno()
    from fractions import Fraction
    if c.part >= 2: return
    s = c.rec(["numpy", "math"][c.part])
    for d, h, lat, lon, el, az, ze in rows:
        t = D.strptime(d + " " + h, "%Y-%m-%d %H:%M:%S").replace(tzinfo=UTC)
        if c.part: t = gen.some_tz(c.R, t)
        la, lo, e = float(lat), float(lon), float(el)
        with rec.warnings.catch_warnings():
            rec.warnings.simplefilter("ignore")
            a, x1 = guarded(rec.fn("get_azimuth"), (la, lo, t, e), {})
            b, x2 = guarded(rec.fn("get_altitude"), (la, lo, t, e), {})
        obs = [limbs(Fraction(az)), limbs(90 - Fraction(ze))]
        s.add(t="count", az=enc(a) if x1 is None else enc_exc(x1), alt=enc(b) if x2 is None else enc_exc(x2), obs=obs, limit=[limbs(Fraction("0.1765")), limbs(Fraction("0.6045"))])     # 0.176, 0.604 as printed
    s.add(t="summary", n=len(rows), limit=[limbs(Fraction("0.004635")), limbs(Fraction("0.03795"))], dev=[limbs(Fraction("0.005505")), limbs(Fraction("0.07955"))])
    c.emit(s)

# --- C13 ----------------------------------------------------------------------------------------------------------
def C13(c):
    R = c.R
    for d in c.mine(range(1, 367)):
        s = c.rec()
        for op in ("equation_of_time", "get_declination"): s.call(op, d)
        y = R.choice([2000, 2004, 2008, 2012, 2024, 1600, 2400, 4]) if d == 366 or R.random() < .5 else R.choice([2001, 2007, 2015, 1900, 2100, 1, 9999])
        t = D(y, 1, 1, tzinfo=UTC) + TD(days=d - 1)
        for tod in (0, 59, 60, 86399, R.randrange(86400), R.randrange(86400), 43200):
            w = t + TD(seconds=tod, microseconds=R.choice([0, 999999, R.randrange(10**6)]))
            for _ in range(2):
                lat, lon = pick_place(R)
                v = dict(latitude_deg=num(R, lat), longitude_deg=num(R, lon), when=gen.some_tz(R, w))
                for op in ("get_solar_time", "get_hour_angle", "get_altitude_fast", "get_azimuth_fast"): call(R, s, op, v)
        c.emit(s)
    for _ in range(c.share(500, 15000)):
        s = c.rec()
        w = gen.instant(R)
        for _ in range(6):
            lat, lon = pick_place(R, .8)
            k = R.randrange(5)
            day = w.timetuple().tm_yday
            dec = 23.45 * math.sin(2 * math.pi / 365 * (day - 81))
            if k == 0: lat = dec                                   # Sun overhead or on the prime vertical
            if k == 1: lon = 15 * (12 - (w.hour + w.minute / 60)) + R.choice([-1e-9, 0, 1e-9, R.uniform(-5, 5)])
            if k == 2: lat, lon = dec + R.choice([0, 1e-7, -1e-7]), 15 * (12 - (w.hour + w.minute / 60)) - R.uniform(-4, 4)
            v = dict(latitude_deg=lat, longitude_deg=lon, when=gen.some_tz(R, w))
            for op in ("get_solar_time", "get_hour_angle", "get_altitude_fast", "get_azimuth_fast"): call(R, s, op, v)
        c.emit(s)

# --- C14 ----------------------------------------------------------------------------------------------------------
RISES = ["get_sunrise_sunset_transit", "get_sunrise_sunset", "get_sunrise_time", "get_sunset_time", "get_transit_time"]
def local(R, kind=None):
    "an aware datetime given by its local fields"
    k = kind or R.choice(["fixed-whole", "fixed-half", "fixed-seconds", "fixed-micro", "edge", "custom", "dst", "dst", "zone", "zone", "utc", "subclass"])
    y = R.choice([R.randrange(1975, 2030), R.randrange(1975, 2030), R.randrange(1900, 2100), R.choice([2000, 2004, 2100, 1900, 1600, 2400, 3, 9998, R.randrange(3, 9998)])])
    m, d = gen.day(R, y, R.choice(gen.DAYS + ["any"] * 3))
    if k in ("dst", "zone") and R.random() < .5: m, d = R.choice([3, 10, 4, 9, 11]), R.randrange(24, 31)
    tz = gen.tz(R, k)
    w = D(y, m, d, *gen.tod(R, R.choice(gen.TODS + ["micro", "second"])), tzinfo=tz, fold=R.choice([0, 0, 1]))
    if k == "subclass": w = gen.Sub(w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond, w.tzinfo, fold=w.fold)
    return w
def real(w):
    "is the local time one that occurs"
    try: return w.astimezone(UTC).astimezone(w.tzinfo).replace(tzinfo=None) == w.replace(tzinfo=None)
    except (OverflowError, ValueError): return False
def C14(c):
    R = c.R
    for _ in range(c.share(1100, 30000)):
        s = c.rec()
        w = local(R)
        if not real(w): continue
        k = R.random()
        lat = R.choice([R.uniform(-66, 66)] * 4 + [R.uniform(-90, 90), gen.lat(R, R.choice(gen.LATS)), R.choice([65.5, 66.5, 67, 68, -66.5, 90, -90, 89.9, 0, 0.0])])
        off = w.utcoffset().total_seconds() / 3600
        if k < .5: lon = 15 * off + R.uniform(-20, 20)
        else: lon = gen.lon(R, R.choice(gen.LONS))
        v = dict(latitude_deg=num(R, lat), longitude_deg=num(R, lon), when=w)
        for op in RISES: call(R, s, op, v)
        # another time of the same local day
        w2 = w.replace(hour=R.randrange(24), minute=R.randrange(60), second=R.randrange(60), microsecond=R.choice([0, 999999]))
        if real(w2): call(R, s, "get_sunrise_sunset_transit", dict(v, when=w2))
        for h in (0, 23):
            w3 = w.replace(hour=h, minute=59 if h else 0, second=59 if h else 0)
            if real(w3): call(R, s, R.choice(RISES), dict(v, when=w3))
        c.emit(s)

# --- C15, C16, C17 --------------------------------------------------------------------------------------------------
ALTS = lambda R: R.choice([R.uniform(-90, 90), R.uniform(0, 90), R.uniform(0, 90), 0, 0.0, -0.0, 90, -90, 90.0, 10 ** R.uniform(-15, 0), -10 ** R.uniform(-15, 0), 5e-324, -5e-324, 30, 91.0, 90.0001])
def C15(c):
    R = c.R
    for d in c.mine(range(1, 367)):
        s = c.rec()
        s.call("get_apparent_extraterrestrial_flux", d); s.call("get_optical_depth", d)
        y = 2008 if d == 366 else R.choice([2007, 2008, 1, 9999, 1900])
        t = D(y, 1, 1, *gen.tod(R, R.choice(gen.TODS)), tzinfo=UTC) + TD(days=d - 1)
        for _ in range(8):
            call(R, s, "get_radiation_direct", dict(when=gen.some_tz(R, t), altitude_deg=num(R, ALTS(R))))
        c.emit(s)
    for _ in range(c.share(900, 20000)):
        s = c.rec()
        t = gen.instant(R)
        for _ in range(8):
            a = ALTS(R)
            call(R, s, "get_radiation_direct", dict(when=gen.some_tz(R, t), altitude_deg=num(R, a)))
            if a and abs(a) > 1e-300: s.call("get_air_mass_ratio", a)
        s.call("get_air_mass_ratio", 0); s.call("get_air_mass_ratio", 0.0)
        c.emit(s)

def C16(c):
    R = c.R
    def one(t):
        s = c.rec()
        for _ in range(3):
            w = gen.some_tz(R, t)
            call(R, s, "mean_earth_sun_distance", dict(when=w))
            call(R, s, "declination_degree", dict(when=w, TY=R.choice([365, 365.0, 366, 365.25, 360, R.uniform(300, 400)])))
        for _ in range(5):
            lat, lon = pick_place(R)
            sc = R.choice([1367.0, 1361, 0, R.uniform(0, 2000), 1, 10 ** R.uniform(-3, 6)])
            v = dict(latitude_deg=lat, longitude_deg=lon, when=gen.some_tz(R, t), SC=sc)
            call(R, s, "extraterrestrial_irrad", v)
            r = R.uniform(1, 1500)
            if guarded(rec.fn("extraterrestrial_irrad"), (lat, lon, t), {})[0] not in (0, None): call(R, s, "clear_index", dict(v, ghi_data=R.choice([0, 500, r])))
            s.call("diffuse_ratio", R.choice([0, R.uniform(0, 1000), 100]), R.choice([r, 250, 1e-3]))
        c.emit(s)
    for d in c.mine(range(1, 367)):
        one(D(2008 if d == 366 else R.choice([2007, 2008, 1999]), 1, 1, *gen.tod(R, R.choice(gen.TODS)), tzinfo=UTC) + TD(days=d - 1))
    for _ in range(c.share(500, 15000)): one(gen.instant(R))

def C17(c):
    R = c.R
    for _ in range(c.share(300, 7000)):
        t = gen.modern(R) if R.random() < .8 else gen.instant(R)
        s = c.rec()
        for _ in range(2):
            lat, lon = pick_place(R, .3)
            te, pr = pick_atm(R)
            v = sky_values(R, num(R, lat), num(R, lon), t, num(R, pick_el(R)), num(R, te), num(R, pr))
            if R.random() < .3: s.call(R.choice(["direct_underclear", "global_irradiance_clear"]), lat, lon, gen.some_tz(R, t), 365, R.uniform(4, 60), R.uniform(0, .4))      # thick but clean air
            for op in sigs.SKY:
                v["when"] = gen.some_tz(R, t)
                call(R, s, op, v)
                if R.random() < .4: call(R, s, op, v, opt=.2)
        for _ in range(3): call(R, s, "diffuse_transmittance", dict(TL=R.choice([1.0, 0, 2, R.uniform(0, 10)])))
        c.emit(s)
    # irradiation data may come in arrays
    if rec.np is not None:
        np = rec.np
        for _ in range(c.share(16, 300)):
            s = c.rec("numpy" if R.random() < .7 else None)
            n = R.choice([0, 1, 2, 5])
            data = lambda: np.array([R.choice([R.uniform(0, 1000), 0.]) for _ in range(n)])
            base = lambda: np.array([R.uniform(1, 1000) for _ in range(n)])
            s.call("diffuse_ratio", data(), base()); s.call("diffuse_ratio", DIFF_data=data(), ghi_data=R.uniform(1, 900)); s.call("diffuse_ratio", R.uniform(1, 900), base())
            t = gen.modern(R); lat, lon = R.uniform(-20, 20), 15 * (12 - t.astimezone(UTC).hour) + R.uniform(-15, 15)
            s.call("clear_index", data(), lat, lon, gen.some_tz(R, t))
            c.emit(s)
    # each optional argument alone, by position and by keyword, at a place where it matters
    for op in c.mine([o for o in sigs.SKY for _ in range(3 if c.quick else 40)]):
        req, opt = sigs.names(op)
        t = gen.modern(R)
        s = c.rec()
        lat, lon = R.uniform(-60, 60), R.uniform(-180, 180)
        v = sky_values(R, lat, lon, t, 5000., 233.15, 70000.)
        v.update(TY=360, AM=3.25, TL=4.5)
        d = dict(elevation=0.0, temperature=288.15, pressure=101325.0, TY=365, AM=2.0, TL=1.0)
        for i, n in enumerate(opt):
            s.call(op, lat, lon, t, **{n: v[n]})
            s.call(op, lat, lon, t, *[d[m] for m in opt[:i]], v[n])
            s.call(op, lat, lon, t, *[v[m] for m in opt[:i + 1]])
            if n in ("elevation", "pressure", "AM", "TL"): s.call(op, lat, lon, t, **{n: R.choice([0, 0.0])})      # nothing is not the default
        s.call(op, lat, lon, t); s.call(op, when=t, longitude_deg=lon, latitude_deg=lat)
        c.emit(s)

# --- C18, C19 -------------------------------------------------------------------------------------------------------
def scalars(c, s, t):
    R = c.R
    lat, lon = R.uniform(-75, 75), R.uniform(-180, 180)
    el, (te, pr) = pick_el(R), pick_atm(R)
    w = gen.some_tz(R, t)
    v = sky_values(R, lat, lon, w, el, te, pr)
    v["altitude_deg"] = R.uniform(-20, 90); v["ghi_data"] = 300.
    call(R, s, "get_position", v)                      # sin cos tan asin atan atan2 degrees radians where
    call(R, s, "get_altitude_fast", v); call(R, s, "get_azimuth_fast", v)   # tm_*, where, pi
    call(R, s, "get_radiation_direct", v)              # exp, where
    s.call("get_incidence_angle", R.uniform(0, 90), R.uniform(0, 90), R.uniform(-180, 180), R.uniform(0, 360))   # acos
    s.call("get_effective_aerosol_wavelength", R.choice(["high-frequency", "low-frequency"]), R.uniform(1, 5), 1.3, R.uniform(.01, .3))   # log
    s.call("get_aerosol_forward_scatterance_factor", R.uniform(0, 90))      # e
    call(R, s, "get_sunrise_sunset_transit", dict(v, latitude_deg=R.uniform(-60, 60)))
    call(R, s, R.choice(sigs.SKY), v); call(R, s, "extraterrestrial_irrad", v); call(R, s, "declination_degree", v); call(R, s, "mean_earth_sun_distance", v)
    call(R, s, R.choice(["get_hour_angle", "get_solar_time"]), v)           # tm_min tm_hour
    base = dict(w=w, l=lat, L=lon)
    for m, n, ks in R.sample([x for x in EVERY if x[0] not in ("simulate", "constants") and not (n_nested(x))], 8): s.call(n, *[every_value(R, k, base) for k in ks])
    # the same questions whenever this session asks, whatever the backend
    if not hasattr(s, "again"): s.again = [(n, [every_value(R, k, base) for k in ks]) for m, n, ks in R.sample([x for x in EVERY if x[0] not in ("simulate", "constants") and not n_nested(x)], 12)]
    for n, a in s.again: s.call(n, *a)
    awkward(c, s, w)
def awkward(c, s, w):
    "arguments outside the domain of one elementary function or another: numpy warns, math refuses"
    R = c.R
    inf, band = float("inf"), R.choice(["high-frequency", "low-frequency"])
    base = dict(w=w, l=R.uniform(-60, 60), L=R.uniform(-180, 180))
    todo = [("get_sunrise_sunset_transit", (R.choice([89., -89.]), 10., D(w.year, 6, 20, tzinfo=UTC))), ("get_aerosol_transmittance", (band, -1., 1e4)), ("get_effective_aerosol_wavelength", (band, -50., 1.3, .5)), ("get_radiation_direct", (w, inf)), ("get_air_mass_ratio", (R.choice([0, inf]),)),
            ("get_direct_normal_irradiance_by_band", (band, R.choice([120., inf]))), ("get_ozone_transmittance", (band, 0., inf)), ("get_beam_irradiance_by_band", (band, -200.)), ("get_aerosol_forward_scatterance_factor", (inf,)), ("direct_underclear", (10., 10., w, 365, 2., 1e6))]
    for m, n, ks in R.sample([x for x in EVERY if x[0] not in ("simulate", "constants")], 12):
        a = [every_value(R, k, base) for k in ks]
        at = [j for j, x in enumerate(a) if type(x) in (int, float)]
        if at: a[R.choice(at)] = R.choice([inf, -inf, 1e308, 0., -0.]); todo.append((n, a))
    for n, a in todo:
        with rec.warnings.catch_warnings(record=True) as q:
            rec.warnings.simplefilter("always")
            guarded(rec.fn(n), a, {})
        s.add(t="awkward", op=n, rw=len([x for x in q if issubclass(x.category, RuntimeWarning)]))
def n_nested(x): return x[1] in rec.RISE or x[1] in sigs.SKY                # covered above, and slow
def vectors(c, s, t):
    np, R = rec.np, c.R
    lat = np.array([R.uniform(-75, 75) for _ in range(2)]); lon = np.array([R.uniform(-180, 180) for _ in range(2)])
    s.call("get_flattened_latitude", lat)                                   # atan tan
    s.call("get_incidence_angle", lat + 75, 30, 10, lon + 180)              # acos
    s.call("get_altitude_fast", lat, lon, t); s.call("get_azimuth_fast", lat, lon, t)
    s.call("get_altitude", lat, lon, t); s.call("get_radiation_direct", t, lat)
    s.call("get_refraction_correction", 101325.0, 288.15, lat)              # where
    s.call("get_geocentric_sun_right_ascension", lon, 23.4, 0.0001)         # atan2
    ts = np.array([t.replace(tzinfo=None), (t + TD(days=3)).replace(tzinfo=None)], dtype="datetime64[us]")
    s.call("get_hour_angle", ts, 12.5); s.call("get_solar_time", -lon[0], ts)  # tm_*
    s.call("get_azimuth_fast", lat, lon, ts); s.call("get_altitude_fast", lat, lon, ts); s.call("get_radiation_direct", ts, lat)
    s.call("get_azimuth", lat, lon, t); s.call("get_position", lat, lon, t)
    s.call("get_topocentric_azimuth_angle", lon, lat, 12.); s.call("get_topocentric_elevation_angle", lat, -12., lon)
    s.call("get_projected_radial_distance", 100., lat); s.call("get_projected_axial_distance", 100., lat)
    s.call("get_parallax_sun_right_ascension", .9, .002, lon, 12.)
def C18(c):
    R = c.R
    model = "Backend" if rec.np is not None else "BackendNo"
    words = c.mine(c.words(model))
    for w in words:
        # every word is one behaviour of a process: the initial mode is that of a fresh import
        m0 = "numpy" if rec.np is not None else "math"
        if rec.MODS["numeric"].current_mod != m0: getattr(rec.pysolar, "use_" + m0)()
        s = Rec(0, m0)
        t = gen.modern(R)
        for ch in w:
            if ch == "M": s.switch("math")
            elif ch == "N": s.switch("numpy")
            elif ch == "S": scalars(c, s, t)
            elif ch == "V": vectors(c, s, t)
        if not w.endswith(("S", "V")): scalars(c, s, t)
        if rec.np is not None and not w.endswith("V"): vectors(c, s, t)
        c.emit(s)
    # without a switch at all: what a fresh import gives
    if rec.np is None:
        for _ in range(c.share(24, 200)):
            s = Rec(0, "math"); scalars(c, s, gen.instant(R)); c.emit(s)

def C19(c):
    np, R = rec.np, c.R
    if np is None: return
    SH = [(2,), (3,), (1,), (2, 2), (3, 1), (1, 2), (2, 3), (0,), (), (2, 1, 2), (2, 2, 2), (2, 0)]
    def arr(f, sh):
        n = 1
        for d in sh: n *= d
        a = np.array([float(f()) for _ in range(n)]).reshape(sh)
        k = R.randrange(6)
        if k == 0 and a.ndim >= 1: a = np.asfortranarray(a)
        if k == 1 and a.ndim == 1 and a.size > 1: a = np.repeat(a, 2)[::2]        # not contiguous
        if k == 2 and a.size: a.setflags(write=False)
        if k == 3: a = np.rint(a).astype(R.choice(["int64", "int32"]))
        return a
    def shapes(n):
        "n shapes that broadcast together (None: a scalar)"
        base = R.choice(SH)
        out = []
        for _ in range(n):
            k = R.randrange(5)
            if k == 0: out.append(None)
            elif k == 1 and base: out.append(tuple(1 for _ in base))
            elif k == 2 and len(base) > 1: out.append(base[1:])
            else: out.append(base)
        if all(x is None for x in out): out[R.randrange(n)] = base
        return out
    def mk(f, sh): return f() if sh is None else arr(f, sh)
    STAGES = [x for x in EVERY if x[0] in ("solar", "stime", "radiation") and "w" not in x[2] or x[1] in ("get_gas_transmittance", "get_rayleigh_transmittance", "get_temperature_with_elevation", "diffuse_transmittance", "get_sky_albedo")]
    def arr_of(f, sh):
        n = 1
        for d in sh: n *= d
        v = [f() for _ in range(n)]
        a = np.array(v, dtype="int64" if v and all(type(x) is int for x in v) else float).reshape(sh)
        if R.random() < .2: a.setflags(write=False)
        return a
    P = lambda: (gen.lat(R, R.choice(gen.LATS)) if R.random() < .4 else R.uniform(-90, 90))
    L = lambda: (gen.lon(R, R.choice(gen.LONS)) if R.random() < .4 else R.uniform(-180, 180))
    E = lambda: pick_el(R)
    TE = lambda: R.uniform(220, 320)
    PR = lambda: R.uniform(30000, 108000)
    def when64(sh):
        n = 1
        for d in sh: n *= d
        u = R.choice(["us", "us", "s", "ms", "m", "h", "D"])
        a = np.array([gen.instant(R).replace(tzinfo=None) for _ in range(n)], dtype="datetime64[us]").reshape(sh)
        return a.astype("datetime64[%s]" % u)
    for _ in range(c.share(330, 7000)):
        s = c.rec("numpy")
        t = gen.modern(R) if R.random() < .7 else gen.instant(R)
        w = gen.some_tz(R, t)
        a, b, e, te, pr = shapes(5)
        v = dict(latitude_deg=mk(P, a), longitude_deg=mk(L, b), when=w, elevation=mk(E, e), temperature=mk(TE, te), pressure=mk(PR, pr))
        for op in R.sample(EPOS, 2):
            call(R, s, op, v, opt=.7)
        vv = sky_values(R, mk(P, a), mk(L, b), w, 0.0, 288.15, 101325.0)
        for op in R.sample(sigs.SKY, 1): call(R, s, op, vv, opt=.2)
        c.emit(s)
        s = c.rec("numpy")
        for _ in range(3):
            a, b, wsh = shapes(3)
            if wsh is None: ww = gen.some_tz(R, gen.instant(R))
            else: ww = when64(wsh)
            v = dict(latitude_deg=mk(P, a), longitude_deg=mk(L, b), when=ww)
            if not any(hasattr(x, "shape") for x in v.values()): v["latitude_deg"] = arr(P, (3,))
            for op in ("get_altitude_fast", "get_azimuth_fast", "get_hour_angle", "get_solar_time"): call(R, s, op, v)
            a, wsh = shapes(2)
            ww = gen.some_tz(R, gen.instant(R)) if wsh is None else when64(wsh)
            al = mk(lambda: ALTS(R), a)
            call(R, s, "get_radiation_direct", dict(when=ww, altitude_deg=al))
        c.emit(s)
        s = c.rec("numpy")
        a, b, e = shapes(3)
        s.call("get_refraction_correction", mk(PR, a), mk(TE, b), mk(lambda: R.choice([R.uniform(-90, 90), R.uniform(-2, 2)]), e))
        s.call("get_topocentric_azimuth_angle", mk(lambda: R.uniform(0, 360), a), mk(P, b), mk(lambda: R.uniform(-23, 23), e))
        s.call("get_topocentric_elevation_angle", mk(P, b), mk(lambda: R.uniform(-23, 23), e), mk(lambda: R.uniform(0, 360), a))
        s.call("get_incidence_angle", mk(lambda: R.uniform(0, 90), a), mk(lambda: R.uniform(0, 90), b), 10, mk(lambda: R.uniform(0, 360), e))
        s.call("get_flattened_latitude", arr(P, R.choice(SH)))
        s.call("get_projected_radial_distance", mk(E, a), mk(P, b))
        s.call("diffuse_ratio", mk(lambda: R.uniform(0, 900), a), mk(lambda: R.uniform(1, 900), b))
        c.emit(s)
        # the functions that positions and radiation are made of
        s = c.rec("numpy")
        for m, n, ks in R.sample(STAGES, 5):
            sh = shapes(len(ks))
            s.call(n, *[every_value(R, k, dict(w=w, l=P(), L=L())) if h is None or k in "nb" else arr_of(lambda: every_value(R, k, dict(w=w, l=P(), L=L())), h) for k, h in zip(ks, sh)])
        c.emit(s)

# --- C20 --------------------------------------------------------------------------------------------------------------
TABLES = [("constants", n) for n in "aberration_sin_terms nutation_coefficients heliocentric_longitude_coeffs heliocentric_latitude_coeffs sun_earth_distance_coeffs earth_radius earth_axis_inclination seconds_per_day standard_pressure standard_temperature earth_temperature_lapse_rate air_gas_constant earth_gravity earth_atmosphere_molar_mass celsius_offset".split()] + \
         [("stime", n) for n in "julian_day_offset gregorian_day_offset tt_offset leap_seconds_base_year leap_seconds_adjustments delta_t_base_year delta_t_base_month delta_t".split()] + \
         [("rest", n) for n in "albedo E0n standard_pressure_millibars".split()] + [("util", n) for n in "AM_default TL_default SC_default TY_default elevation_default".split()]
def tables():
    return repr([getattr(rec.MODS[m], n, None) for m, n in TABLES])
def exact(r):
    np = rec.np
    if np is not None and isinstance(r, np.ndarray): return "array" + repr((r.shape, [exact(x) for x in r.ravel().tolist()]))
    if isinstance(r, BaseException): return "!" + type(r).__name__
    if isinstance(r, (tuple, list)): return type(r).__name__ + "[" + ",".join(exact(x) for x in r) + "]"
    if isinstance(r, dict): return "{" + ",".join(k + ":" + exact(v) for k, v in sorted(r.items())) + "}"
    if isinstance(r, datetime.datetime): return repr(r.astimezone(UTC).isoformat()) if r.tzinfo else repr(r)
    if isinstance(r, (int, float)) or np is not None and isinstance(r, np.generic): return repr(float(r)) if not isinstance(r, bool) else repr(r)
    return repr(r)
def pure_pool(R, mods=None):
    "kinds of calls, each a (name, function, args, kwargs) with near twins that differ in one argument"
    mods = mods or rec.MODS
    S, T, U, E, A, M, X = [mods[n] for n in ("solar", "stime", "util", "elevation", "radiation", "simulate", "rest")]
    t = gen.modern(R)
    w = gen.some_tz(R, t)
    lat, lon, el, te, pr = R.uniform(-60, 60), R.uniform(-180, 180), R.uniform(0, 3000), R.uniform(250, 310), R.uniform(70000, 105000)
    n = t.replace(tzinfo=None)
    hor = every_value(R, "H", {}) * R.choice([1, 10])
    t2 = t + R.choice([TD(microseconds=1), TD(seconds=1), TD(days=1), TD(days=365), TD(hours=1)]) if t.year < 9990 else t
    pool = [
        ("pos", S.get_position, (lat, lon, w), {}), ("pos", S.get_position, (lat, lon, t2), {}), ("pos", S.get_position, (lat, lon, w, el), {}), ("pos", S.get_position, (lat, lon, w), dict(temperature=te)), ("pos", S.get_position, (lat, lon, w), dict(pressure=pr)),
        ("alt", S.get_altitude, (lat, lon, w, el, te, pr), {}), ("alt", S.get_altitude, (lat, -lon, w, el, te, pr), {}), ("az", S.get_azimuth, (lat, lon, w), {}), ("az", S.get_azimuth, (-lat, lon, w), {}),
        ("fast", S.get_azimuth_fast, (lat, lon, w), {}), ("fast", S.get_altitude_fast, (lat, lon, w), {}), ("fast", S.get_altitude_fast, (lon / 2, lat, w), {}),
        ("rise", U.get_sunrise_sunset_transit, (lat, lon, w), {}), ("rise", U.get_sunrise_sunset_transit, (lat, lon, t2), {}), ("rise", U.get_transit_time, (lat, lon, w), {}), ("rise", U.get_sunset_time, (lat, lon, w), {}),
        ("polar", U.get_sunrise_sunset, (89.9, lon, w), {}),
        ("rad", A.get_radiation_direct, (w, 33.3), {}), ("rad", A.get_radiation_direct, (t2, 33.3), {}), ("rad", A.get_radiation_direct, (w, -1), {}), ("mass", A.get_air_mass_ratio, (0,), {}),
        ("clear", U.direct_underclear, (lat, lon, w), {}), ("clear", U.direct_underclear, (lat, lon, w), dict(TL=2.5)), ("clear", U.global_irradiance_clear, (lat, lon, w), {}), ("clear", U.diffuse_underclear, (lat, lon, w), {}), ("over", U.global_irradiance_overcast, (lat, lon, w), {}),
        ("extra", U.extraterrestrial_irrad, (lat, lon, w), {}), ("extra", U.extraterrestrial_irrad, (lat, lon, w, 1000.), {}), ("decl", U.declination_degree, (w,), {}), ("decl", U.declination_degree, (w, 366), {}), ("dist", U.mean_earth_sun_distance, (w,), {}),
        ("leap", T.get_leap_seconds, (w,), {}), ("leap", T.get_leap_seconds, (D(2030, 1, 1, tzinfo=UTC),), {}), ("dt", T.get_delta_t, (w,), {}), ("dt", T.get_delta_t, (D(1960, 1, 1, tzinfo=UTC),), {}), ("dt", T.get_delta_t, (D(2040, 9, 1, tzinfo=UTC),), {}),
        ("jd", T.get_julian_solar_day, (w,), {}), ("jde", T.get_julian_ephemeris_day, (w,), {}),
        ("naive", S.get_altitude, (lat, lon, n), {}), ("naive", U.get_transit_time, (lat, lon), dict(when=n)), ("bad", S.get_position, ("x", lon, w), {}), ("bad", U.clear_index, (1.0, lat, lon), {}),
        ("nut", S.get_nutation, (R.uniform(-1, 1),), {}), ("hel", S.get_heliocentric_longitude, (R.uniform(-.1, .1),), {}), ("refr", S.get_refraction_correction, (pr, te, 5.0), {}), ("refr", S.get_refraction_correction, (pr, te, -5.0), {}),
        ("obl", S.get_true_ecliptic_obliquity, (.01, dict(longitude=.001, obliquity=.002)), {}),
        ("press", E.get_pressure_with_elevation, (1234.5,), {}), ("press", E.get_pressure_with_elevation, (1234.5,), dict(Tl=-.005)), ("press", E.get_pressure_with_elevation, (12000,), {}), ("temp", E.get_temperature_with_elevation, (500,), {}),
        ("sim", lambda *a: list(M.simulate_span(*a)), (lat, lon, hor, w, w + TD(minutes=61), 30), {}), ("sim", lambda *a: list(M.simulate_span(*a)), (lat, lon, hor, w, w + TD(minutes=61), 20, el, te, pr), {}),
        ("range", lambda *a: list(M.datetime_range(*a)), (w, w + TD(hours=5), 45), {}),
        ("rest", X.get_beam_broadband_irradiance, (40.0,), dict(turbidity_beta=.05)), ("rest", X.get_direct_normal_irradiance_by_band, ("high-frequency", 40.0), dict(turbidity_beta=.05)), ("rest", X.get_water_vapor_transmittance_coefficients, ("low-frequency", 2.0), {}),
        ("inc", S.get_incidence_angle, (50.0, 30, -10, 194.), {}),
    ]
    if rec.np is not None and mods["numeric"].current_mod == "numpy":
        np = rec.np
        la = np.array([lat, -lat, 10.]); lo = np.array([lon, 0., 20.]); dd = np.array([n, t2.replace(tzinfo=None), n], dtype="datetime64[us]"); al = np.array([-5., 0., 40.])
        pool += [("arr", S.get_altitude, (la, lo, w), {}), ("arr", S.get_position, (la, lo, w), {}), ("arr", S.get_azimuth_fast, (la, lo, dd), {}), ("arr", S.get_altitude_fast, (lat, lon, dd), {}), ("arr", A.get_radiation_direct, (dd, al), {}), ("arr", S.get_refraction_correction, (pr, te, al), {}),
                 ("arr", S.get_topocentric_elevation_angle, (la, al / 2, lo), {}), ("arr", S.get_incidence_angle, (al + 10, 20, 0, lo), {}), ("arr", U.extraterrestrial_irrad, (la, lo, dd), {})]
    return [("%s#%d" % (k, i), f, a, kw) for i, (k, f, a, kw) in enumerate(pool)]
def memo_call(s, name, f, a, kw):
    b0 = exact(a) + exact(kw)
    t0 = tables()
    # read-only copies would hide a mutation: pass the objects themselves
    with rec.warnings.catch_warnings():
        rec.warnings.simplefilter("ignore")
        r, x = guarded(f, a, kw)
    s.add(t="memo", key=name, val=exact(r if x is None else x), mut=(exact(a) + exact(kw) != b0) or tables() != t0)
def C20(c):
    R = c.R
    import subprocess
    # 1. histories of the model: words over kinds of calls; the first occurrence of each call in its own fresh pool order is the reference
    words = c.mine(c.words("Histories"))
    for ch in chunks(words, 8):
        s = c.rec()
        pool = pure_pool(R)
        sub = R.sample(pool, 14)
        for w in ch:
            for k in w.split(","): memo_call(s, *sub[int(k) - 1])
        c.emit(s)
    # 2. near twins one after another, both orders
    for _ in range(c.share(60, 900)):
        s = c.rec()
        pool = pure_pool(R)
        order = list(range(len(pool))); R.shuffle(order)
        for i in order: memo_call(s, *pool[i])
        for i in reversed(range(len(pool))): memo_call(s, *pool[i])
        R.shuffle(order)
        for i in order: memo_call(s, *pool[i])
        c.emit(s)
    # 3. long histories of one function, then the first call again
    for _ in range(c.share(40, 400)):
        s = c.rec()
        pool = pure_pool(R)
        first = R.sample(pool, 6)
        for x in first: memo_call(s, *x)
        f = R.choice([rec.fn("get_altitude_fast"), rec.fn("get_azimuth"), rec.fn("get_altitude"), rec.fn("get_leap_seconds"), rec.fn("get_delta_t"), rec.fn("get_radiation_direct"), rec.fn("get_sunrise_time"), rec.fn("get_nutation"), rec.fn("get_pressure_with_elevation"), rec.fn("get_julian_solar_day")])
        nm = f.__name__
        with rec.warnings.catch_warnings():
            rec.warnings.simplefilter("ignore")
            for _ in range(300 if c.quick else 1500):
                t = gen.modern(R)
                a = (R.uniform(-60, 60), R.uniform(-180, 180), t) if nm in ("get_altitude_fast", "get_azimuth", "get_altitude", "get_sunrise_time") else (t,) if nm in ("get_leap_seconds", "get_delta_t", "get_julian_solar_day") else (t, R.uniform(-90, 90)) if nm == "get_radiation_direct" else (R.uniform(-1, 1),) if nm == "get_nutation" else (R.uniform(0, 10000),)
                guarded(f, a, {})
        for x in first + first[::-1]: memo_call(s, *x)
        c.emit(s)
    # 4. interleaved generators
    for _ in range(c.share(40, 400)):
        s = c.rec()
        M = rec.MODS["simulate"]
        def mkg():
            t = gen.modern(R); lat, lon = R.uniform(-60, 60), R.uniform(-180, 180); hor = [R.randrange(380) for _ in range(360)]; step = R.choice([10, 30, 7.5])
            return lambda: M.simulate_span(lat, lon, hor, t, t + TD(minutes=5 * step + 1), step, R.choice([0]), 280., 100000.)
        gs = [mkg() for _ in range(3)]
        for i, g in enumerate(gs):
            for j, x in enumerate(guarded(lambda: list(g()), (), {})[0] or []): s.add(t="memo", key="g%d.%d" % (i, j), val=exact(x), mut=False)
        its = [iter(g()) for g in gs]; pos = [0, 0, 0]; alive = {0, 1, 2}
        while alive:
            i = R.choice(sorted(alive))
            r, x = guarded(lambda: next(its[i], None), (), {})
            if r is None or x is not None:
                alive.discard(i); s.add(t="memo", key="g%d.%d" % (i, pos[i]), val=exact(x), mut=False); continue
            s.add(t="memo", key="g%d.%d" % (i, pos[i]), val=exact(r), mut=False); pos[i] += 1
            if R.random() < .3: memo_call(s, *R.choice(pure_pool(random.Random(5))))
        c.emit(s)
    # 5. another process gives the same: the same calls computed in fresh interpreters with other hash seeds, one call each order
    seeds = [R.randrange(10**6) for _ in range(2 if c.quick else 12)]
    for sd in seeds:
        for mode in ("numpy", "math") if rec.np is not None else ("math",):
            s = c.rec(mode)
            pool = pure_pool(random.Random(sd))
            for x in pool: memo_call(s, *x)
            env = dict(os.environ, PYTHONHASHSEED=str(R.randrange(1000)))
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "--pool", str(sd), mode], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=120)
            try: other = json.loads(p.stdout)
            except ValueError: other = [["process", "failed", True]]
            for name, val, mut in other: s.add(t="memo", key=name, val=val, mut=mut)
            c.emit(s)
    # 6. every answer is that of a copy of the package that has answered nothing yet: walks over close neighbours of a few
    #    calls, in which returned objects are scribbled on and argument objects change their content between calls
    for _ in range(c.share(300, 4000)):
        s = c.rec()
        walk(c, s)
        c.emit(s)

    # 7. questions that compare equal or nearly so, to every function in turn: each answer is that of a copy of the package
    #    that is only ever asked this variant
    for _ in range(c.share(8, 200)):
        s = c.rec()
        twins(c, s)
        c.emit(s)

    # 7b. zones that come and go while the clock reads the same: each answer is that of a zone of its own that stays
    for _ in range(c.share(8, 200)):
        s = c.rec()
        vanishing(c, s)
        c.emit(s)

    # 7c. calls that are broken off somewhere inside, as by a signal or by an argument that gives up, and the same calls whole
    for i in range(c.share(16, 300)):
        s = c.rec()
        broken_off(c, s, i)
        c.emit(s)

    # 8. every function asked with arrays of its own where it takes them, again and again with the same objects, which stay as they were
    if rec.np is not None:
        np = rec.np
        for _ in range(c.share(60, 900)):
            s = c.rec("numpy")
            t = gen.modern(R)
            base = dict(w=gen.some_tz(R, t), l=R.uniform(-60, 60), L=R.uniform(-180, 180))
            n, pool = R.choice([1, 2, 3]), []
            for i, (m, f, ks) in enumerate(EVERY):
                a, some = [], R.random()
                for k in ks:
                    if k in "bHs": a.append(every_value(R, k, base)); continue
                    if R.random() < .25: a.append(every_value(R, k, base)); continue
                    if k == "w":
                        a.append(np.array([(t + TD(hours=j)).replace(tzinfo=None) for j in range(n)], dtype="datetime64[us]") if f in ARR_WHEN else base["w"]); continue
                    if k == "n":
                        v = [every_value(R, k, base) for _ in range(n)]
                        a.append({q: np.array([x[q] for x in v]) for q in v[0]}); continue
                    v = [every_value(R, k, base) for _ in range(n)]
                    a.append(np.array(v, dtype=float))
                pool.append(("%s#%d" % (f, i), getattr(rec.MODS[m], f) if m != "simulate" else (lambda g: lambda *q: list(g(*q)))(getattr(rec.MODS[m], f)), tuple(a), {}))
            for x in pool: memo_call(s, *x)
            R.shuffle(pool)
            for x in pool: memo_call(s, *x)
            c.emit(s)

ARR_WHEN = ("get_altitude_fast", "get_azimuth_fast", "get_hour_angle", "get_solar_time", "get_radiation_direct", "extraterrestrial_irrad")

class Broken(BaseException): pass
class Brittle(float):
    "a number that can be asked only so often"
    left = 0
    def _op(name):
        g = getattr(float, name)
        def f(self, *q):
            Brittle.left -= 1
            if Brittle.left < 0: raise Broken
            return g(self, *q)
        return f
    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "neg", "float", "lt", "gt", "le", "ge", "eq", "mod", "rmod", "abs", "round", "int"): locals()["__%s__" % _n] = _op("__%s__" % _n)
    __hash__ = float.__hash__
    del _op, _n
def interrupted(mods, item, at=None):
    "the call, with a computation inside it that fails (the at-th of those of the package and its mathematics), or whole; how many there are"
    home, n = os.path.dirname(os.path.abspath(mods["solar"].__file__)), [0]
    def watch(frame, event, arg):
        if not frame.f_code.co_filename.startswith(home): return
        if event == "call" and not frame.f_code.co_name.startswith("_") or event == "c_call" and getattr(arg, "__module__", None) in ("math", "numpy"):
            n[0] += 1
            if n[0] == at:
                sys.setprofile(None)
                raise Broken
    old = sys.getprofile()
    sys.setprofile(watch)
    try: ask(mods, item)
    except Broken: pass
    finally: sys.setprofile(old)
    return n[0]
def broken_off(c, s, turn):
    R, mode = c.R, s.mode
    base = dict(w=gen.some_tz(R, gen.modern(R)), l=R.uniform(-60, 60), L=R.uniform(-180, 180))
    items = [(m, n, tuple(every_value(R, q, base) for q in ks)) for m, n, ks in EVERY]
    whole, count, mods = Fresh().mods(mode), Fresh().mods(mode), Fresh().mods(mode) if turn % 2 else rec.MODS
    lines = []
    for i, it in enumerate(items):
        r, x = ask(whole, it)
        s.add(t="memo", key="%s#%d" % (it[1], i), val=exact(r if x is None else x), mut=False)
        lines.append(interrupted(count, it))
    def again(i):
        r, x = ask(mods, items[i])
        s.add(t="memo", key="%s#%d" % (items[i][1], i), val=exact(r if x is None else x), mut=False)
    order = list(range(len(items))); R.shuffle(order)
    for i in order:
        for _ in range(R.choice([1, 1, 2, 3])):
            at = [j for j, x in enumerate(items[i][2]) if type(x) is float]
            if at and R.random() < .4:
                a = list(items[i][2])
                j = R.choice(at)
                a[j] = Brittle(a[j])
                Brittle.left = R.choice([0, 1, 2, R.randrange(60), R.randrange(300)])
                try: ask(mods, items[i][:2] + (tuple(a),))
                except Broken: pass
            else: interrupted(mods, items[i], R.randrange(1, lines[i] + 1) if lines[i] else 1)
        again(i)
        if R.random() < .2: again(R.randrange(len(items)))
    for i in order: again(i)

def vanishing(c, s):
    R, mods = c.R, Fresh().mods(s.mode)
    t = gen.modern(R).replace(tzinfo=None)
    kinds = [lambda o: datetime.timezone(TD(minutes=o)), lambda o: gen.Dst(TD(minutes=o)), lambda o: datetime.timezone(TD(minutes=o), "here")]
    offs = [(R.choice(kinds), R.randrange(-700, 700)) for _ in range(6)]
    l, L, seed = R.uniform(-60, 60), R.uniform(-180, 180), R.random()
    stay = [(f, o, f(o)) for f, o in offs]
    for i, (m, n, ks) in enumerate(EVERY):
        if "w" not in ks: continue
        def item(w):
            Q = random.Random("%s/%s" % (seed, i))
            return m, n, tuple(every_value(Q, q, dict(w=w, l=l, L=L)) for q in ks)
        for k, (f, o, z) in enumerate(stay):
            r, x = ask(mods, item(t.replace(tzinfo=z)))
            s.add(t="memo", key="%s#%d.%d" % (n, i, k), val=exact(r if x is None else x), mut=False)
        for k, (f, o, z) in enumerate(stay):
            r, x = ask(rec.MODS, item(t.replace(tzinfo=f(o))))
            v = exact(r if x is None else x)
            r = x = None
            s.add(t="memo", key="%s#%d.%d" % (n, i, k), val=v, mut=False)

def twins(c, s):
    R, fresh = c.R, Fresh()
    t, z = fold_instant(R)
    if R.random() < .7:
        y = R.randrange(1975, 2030)
        if R.random() < .5 or not gen.ZONES: z, w = gen.Dst(TD(hours=R.randrange(-11, 13))), D(y, 10, 31, 2, R.randrange(60), R.randrange(60))
        else:
            z, w = gen.ZONES[0], D(y, 10, 31, 2, R.randrange(60), R.randrange(60))
            while w.weekday() != 6: w -= TD(days=1)
        w = w.replace(tzinfo=z)
    else: w = t.astimezone(z)
    ws = [w, w.replace(fold=1 - w.fold), w.astimezone(UTC), w.replace(tzinfo=UTC), w + TD(microseconds=1)]
    try: ws.append(w.astimezone(datetime.timezone(TD(hours=R.choice([-11, 9, 13])))))
    except (OverflowError, ValueError): pass
    l, L = R.choice([R.uniform(-60, 60), R.randrange(-60, 61), 0]), R.choice([R.uniform(-180, 180), R.randrange(-180, 181), 0])
    ls = [(l, L), (float(l), float(L)), (-l, L), (l + 1e-9, L), (L / 3, l), (round(l), L)]
    seed = R.random()
    asked = []
    for k, w in enumerate(ws):
        mods, items = fresh.mods(s.mode), []
        base = dict(w=w, l=ls[k][0], L=ls[k][1])
        for i, (m, n, ks) in enumerate(EVERY):
            Q, N = random.Random("%s/%s" % (seed, i)), random.Random("%s/%s/%s" % (seed, i, k))
            a = [every_value(Q, q, base) for q in ks]
            for j in [j for j, q in enumerate(ks) if q not in "wlL"]:
                if k and N.random() < .5: a[j] = nudge(N, a[j])
            it = (m, n, tuple(a))
            r, x = ask(mods, it)
            key = "%s#%d.%d" % (n, i, k)
            s.add(t="memo", key=key, val=exact(r if x is None else x), mut=False)
            items.append((key, it))
        asked.append(items)
    for i in R.sample(range(len(EVERY)), len(EVERY)):
        order = list(range(len(ws))); R.shuffle(order)
        for k in order:
            key, it = asked[k][i]
            r, x = ask(rec.MODS, it)
            s.add(t="memo", key=key, val=exact(r if x is None else x), mut=False)

EVERY = [("solar", "get_nutation", ("j",)), ("solar", "get_heliocentric_longitude", ("m",)), ("solar", "get_heliocentric_latitude", ("m",)), ("solar", "get_sun_earth_distance", ("m",)), ("solar", "get_geocentric_longitude", ("m",)), ("solar", "get_geocentric_latitude", ("m",)),
         ("solar", "get_mean_sidereal_time", ("d",)), ("solar", "get_apparent_sidereal_time", ("d", "m", "n")), ("solar", "get_true_ecliptic_obliquity", ("m", "n")), ("solar", "get_apparent_sun_longitude", ("a", "n", "x")), ("solar", "get_aberration_correction", ("u",)),
         ("solar", "get_geocentric_sun_right_ascension", ("a", "o", "x")), ("solar", "get_geocentric_sun_declination", ("a", "o", "x")), ("solar", "get_flattened_latitude", ("l",)), ("solar", "get_projected_radial_distance", ("e", "l")), ("solar", "get_projected_axial_distance", ("e", "l")),
         ("solar", "get_equatorial_horizontal_parallax", ("u",)), ("solar", "get_local_hour_angle", ("a", "a", "a")), ("solar", "get_parallax_sun_right_ascension", ("u", "x", "a", "o")), ("solar", "get_topocentric_local_hour_angle", ("a", "x")), ("solar", "get_topocentric_sun_declination", ("o", "u", "x", "x", "a")),
         ("solar", "get_topocentric_sun_right_ascension", ("u", "x", "a", "a", "o", "x")), ("solar", "get_topocentric_azimuth_angle", ("a", "l", "o")), ("solar", "get_topocentric_elevation_angle", ("l", "o", "a")), ("solar", "get_topocentric_zenith_angle", ("l", "o", "a", "P", "T")),
         ("solar", "get_refraction_correction", ("P", "T", "l")), ("solar", "get_incidence_angle", ("z", "z", "a", "a")), ("solar", "equation_of_time", ("Y",)), ("solar", "get_declination", ("Y",)), ("solar", "get_solar_time", ("L", "w")), ("solar", "get_hour_angle", ("w", "L")),
         ("solar", "get_altitude_fast", ("l", "L", "w")), ("solar", "get_azimuth_fast", ("l", "L", "w")), ("solar", "get_altitude", ("l", "L", "w", "e", "T", "P")), ("solar", "get_azimuth", ("l", "L", "w", "e")), ("solar", "get_position", ("l", "L", "w", "e", "T", "P")), ("solar", "get_topocentric_position", ("l", "L", "w", "e")),
         ("stime", "get_leap_seconds", ("w",)), ("stime", "get_delta_t", ("w",)), ("stime", "get_julian_solar_day", ("w",)), ("stime", "get_julian_ephemeris_day", ("w",)), ("stime", "get_julian_century", ("d",)), ("stime", "get_julian_ephemeris_century", ("d",)), ("stime", "get_julian_ephemeris_millennium", ("j",)),
         ("radiation", "get_radiation_direct", ("w", "l")), ("radiation", "get_air_mass_ratio", ("z",)), ("radiation", "get_apparent_extraterrestrial_flux", ("Y",)), ("radiation", "get_optical_depth", ("Y",)),
         ("elevation", "get_pressure_with_elevation", ("e", "P", "T")), ("elevation", "get_temperature_with_elevation", ("e", "T")), ("constants", "get_aberration_coeffs", ())]
EVERY += [("util", n, ("l", "L", "w")) for n in RISES + ["extraterrestrial_irrad"]] + [("util", "mean_earth_sun_distance", ("w",)), ("util", "declination_degree", ("w",)), ("util", "declination_degree", ("w", "Y"))]
EVERY += [("util", "direct_underclear", ("l", "L", "w", "Y", "u", "u", "e", "T", "P")), ("util", "global_irradiance_clear", ("l", "L", "w", "Y", "u", "u", "e", "T", "P")), ("util", "solarelevation_function_clear", ("l", "L", "w", "T", "P", "e"))]
EVERY += [("util", n, ("l", "L", "w", "e", "T", "P")) for n in ("solarelevation_function_overcast", "global_irradiance_overcast", "diffuse_underclear", "diffuse_underovercast")]
EVERY += [("util", "diffuse_transmittance", ("u",)), ("util", "diffuse_ratio", ("u", "u")), ("util", "clear_index", ("e", "l", "L", "w"))]
EVERY += [("rest", "get_direct_normal_irradiance_by_band", ("b", "z", "p")), ("rest", "get_beam_irradiance_by_band", ("b", "z", "p")), ("rest", "get_beam_broadband_irradiance", ("z", "p")), ("rest", "get_broadband_direct_normal_irradiance", ("z",)), ("rest", "get_effective_aerosol_wavelength", ("b", "u", "u", "x")),
          ("rest", "get_water_vapor_transmittance_coefficients", ("b", "u")), ("rest", "get_nitrogen_transmittance", ("b", "u", "x")), ("rest", "get_ozone_transmittance", ("b", "u", "x")), ("rest", "get_sky_albedo", ("b", "u", "x")), ("rest", "get_aerosol_transmittance", ("b", "u", "x")), ("rest", "get_optical_mass_ozone", ("z",)),
          ("rest", "get_gas_transmittance", ("b", "u")), ("rest", "get_rayleigh_transmittance", ("b", "u")), ("rest", "get_aerosol_scattering_correction_factor", ("b", "u", "x"))]
EVERY += [("rest", "get_aerosol_forward_scatterance_factor", ("z",)), ("rest", "get_aerosol_optical_depth", ("x", "u", "u")), ("rest", "get_aerosol_scattering_transmittance", ("b", "u", "x")), ("rest", "get_ground_albedo", ("b",)), ("rest", "get_optical_mass_rayleigh", ("z", "p")), ("rest", "get_optical_mass_water", ("z",)),
          ("rest", "get_optical_mass_aerosol", ("z",)), ("rest", "get_rayleigh_extinction_forward_scattering_fraction", ("b", "u")), ("rest", "get_water_vapor_transmittance", ("b", "u", "u"))]
EVERY += [("simulate", "datetime_range", ("w", "w", "s")), ("simulate", "simulate_span", ("l", "L", "H", "w", "w", "s")), ("simulate", "simulate_span", ("l", "L", "H", "w", "w", "s", "e", "T", "P"))]
def every_value(R, k, base):
    if k == "w": return base["w"]
    return {"j": lambda: R.uniform(-1, 1), "m": lambda: R.uniform(-.1, .1), "d": lambda: 2451545. + R.uniform(-20000, 20000), "n": lambda: nut(R), "a": lambda: R.uniform(0, 360), "x": lambda: R.uniform(.001, .3), "u": lambda: R.uniform(.5, 1.5), "o": lambda: R.uniform(20, 25),
            "l": lambda: base["l"] if R.random() < .7 else R.uniform(-60, 60), "L": lambda: base["L"] if R.random() < .7 else R.uniform(-180, 180), "e": lambda: R.choice([0, 0., 1000, R.uniform(0, 5000)]), "T": lambda: R.choice([288.15, R.uniform(250, 310)]), "P": lambda: R.choice([101325., R.uniform(60000, 105000)]),
            "z": lambda: R.uniform(5, 85), "Y": lambda: R.randrange(1, 366), "b": lambda: R.choice(["high-frequency", "low-frequency"]), "p": lambda: R.choice([1013.25, 900.]), "s": lambda: R.choice([20, 30, 37.5]), "H": lambda: [R.choice([R.randrange(380), R.randrange(380), R.randrange(-20, 1000), R.uniform(0, 400), 0, 380, 381]) for _ in range(R.choice([7, 36]))]}[k]()
def nudge(R, x, wide=False):
    "a close neighbour of an argument"
    if isinstance(x, datetime.datetime):
        k = R.randrange(7)
        try:
            if k == 0 and x.tzinfo: return x.astimezone(datetime.timezone(TD(minutes=R.choice([-720, -300, 345, 600, 840]))))         # the same instant elsewhere: equal, same hash
            if k == 1 and x.tzinfo: return x.replace(tzinfo=datetime.timezone(x.utcoffset() + TD(hours=R.choice([-1, 1]))))           # the same clock reading elsewhere
            if k == 2: return x + TD(microseconds=R.choice([1, -1, 499, 600, 999999]))
            if k == 3: return x + TD(seconds=R.choice([1, -1, 7, 29, 31, 60, 150]))
            if k == 4: return x + TD(minutes=R.choice([1, 10, 30, 60, 720]))
            if k == 5: return x + TD(days=R.choice([1, -1, 7, 365, 366, 1461]))
            return x.replace(fold=1 - x.fold)
        except (OverflowError, ValueError): return x
    if isinstance(x, bool) or isinstance(x, str): return x
    if isinstance(x, int): return R.choice([x + 1, x - 1, float(x), x + .25]) if x < 1000 or x > 1 else x
    if isinstance(x, float): return R.choice([x + R.choice([-1, 1]) * 10 ** R.uniform(-12, -1), x * (1 + 10 ** R.uniform(-13, -3)), round(x), round(x, 6), round(x, 2), -x if R.random() < .3 and abs(x) < 181 else x + 1e-9])
    if isinstance(x, dict): return dict(x, longitude=nudge(R, x["longitude"]))
    if isinstance(x, list): return x[:-1] + [x[-1] + 1]
    if rec.np is not None and isinstance(x, rec.np.ndarray):
        y = x.copy()
        if y.size and y.dtype.kind == "f": y.flat[R.randrange(y.size)] += 10 ** R.uniform(-9, -1)
        return y
    return x
def changeable(x): return isinstance(x, (dict, list)) or rec.np is not None and isinstance(x, rec.np.ndarray)
def own(x):
    if isinstance(x, dict): return dict(x)
    if isinstance(x, list): return list(x)
    if rec.np is not None and isinstance(x, rec.np.ndarray): return x.copy()
    return x
def scribble(R, r):
    "spoils a returned object"
    if isinstance(r, dict):
        for k in list(r):
            if isinstance(r[k], float): r[k] += 17.5
            elif R.random() < .5: r[k] = None
        if R.random() < .3: r.clear()
    elif isinstance(r, list):
        for x in r: scribble(R, x)
        r.append(None); r.reverse()
    elif isinstance(r, tuple):
        for x in r: scribble(R, x)
    elif rec.np is not None and isinstance(r, rec.np.ndarray) and r.flags.writeable and r.dtype.kind in "fi": r[...] = -99
class Fresh:
    "copies of the package that have answered nothing yet"
    def mods(self, mode):
        old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "pysolar" or k.startswith("pysolar.")}
        try:
            import importlib
            p = importlib.import_module("pysolar")
            m = {n: importlib.import_module("pysolar." + {"stime": "solartime"}.get(n, n)) for n in rec.MODS}
            if m["numeric"].current_mod != mode: getattr(p, "use_" + mode)()
            return m
        finally:
            for k in list(sys.modules):
                if k == "pysolar" or k.startswith("pysolar."): del sys.modules[k]
            sys.modules.update(old)
def ask(mods, item):
    m, n, a = item
    f = getattr(mods[m], n)
    if m == "simulate": f = lambda *p, g=f: list(g(*p))
    if m == "constants": f = lambda g=f: {k: v(.5) for k, v in g().items()}
    if n == "datetime_range": a = (a[0], a[1] + TD(minutes=200), a[2])
    if n == "simulate_span": a = a[:4] + (a[4] + TD(minutes=100),) + a[5:]
    with rec.warnings.catch_warnings():
        rec.warnings.simplefilter("ignore")
        return guarded(f, a, {})
def walk(c, s):
    R, fresh, mode = c.R, Fresh(), s.mode
    t = gen.modern(R)
    base = dict(w=gen.some_tz(R, t), l=R.uniform(-60, 60), L=R.uniform(-180, 180))
    if R.random() < .3:          # a clock reading that occurs twice, or hardly ever
        t, z = fold_instant(R)
        try: base["w"] = t.astimezone(z)
        except (OverflowError, ValueError): pass
    arrays = mode == "numpy" and R.random() < .3
    def value(k, n):
        v = every_value(R, k, base)
        if arrays and k in "alLzo" and n in ("get_position", "get_altitude", "get_azimuth", "get_altitude_fast", "get_azimuth_fast", "get_radiation_direct", "get_refraction_correction", "get_topocentric_azimuth_angle", "get_topocentric_elevation_angle", "get_incidence_angle", "get_flattened_latitude", "get_projected_radial_distance"):
            v = rec.np.array([v, every_value(R, k, base), every_value(R, k, base)], dtype=float)
        return v
    items = {}
    def enter(m, n, a):
        key = "%s#%d" % (n, len(items))
        r, x = ask(fresh.mods(mode), (m, n, tuple(own(v) for v in a)))
        s.add(t="memo", key=key, val=exact(r if x is None else x), mut=False)
        items[key] = (m, n, a)
        return key
    for m, n, ks in R.sample(EVERY, R.choice([1, 2, 4])):
        a = tuple(value(k, n) for k in ks)
        enter(m, n, a)
        for _ in range(4):
            if not a: break
            i = R.randrange(len(a))
            b = a[:i] + (nudge(R, a[i]),) + a[i + 1:]
            enter(m, n, b)
            if R.random() < .4: a = b
    retired = set()
    for _ in range(30):
        key = R.choice([k for k in items if k not in retired])
        it = items[key]
        b0, t0 = exact(it[2]), tables()
        r, x = ask(rec.MODS, it)
        s.add(t="memo", key=key, val=exact(r if x is None else x), mut=exact(it[2]) != b0 or tables() != t0)
        if x is None and R.random() < .5: scribble(R, r)
        ch = [v for v in it[2] if changeable(v)]
        if ch and R.random() < .4:
            # the same object with another content is another question
            v = R.choice(ch)
            if isinstance(v, dict): v["longitude"] += R.choice([1e-6, .5]); v["obliquity"] -= .25
            elif isinstance(v, list): v[:] = [380 - y for y in v]
            elif v.size and v.flags.writeable: v[R.randrange(v.shape[0])] += R.choice([1e-6, 1.5])
            for k, other in items.items():
                if any(v is y for y in other[2]): retired.add(k)
            enter(*it)
def pool_main(seed, mode):
    rec.load()
    if rec.MODS["numeric"].current_mod != mode: getattr(rec.pysolar, "use_" + mode)()
    s = Rec(0, mode)
    pool = pure_pool(random.Random(int(seed)))
    for x in reversed(pool): memo_call(s, *x)
    print(json.dumps([[e["key"], e["val"], e["mut"]] for e in s.ev]))

# --- C21, C22 ---------------------------------------------------------------------------------------------------------
class Range:
    "a datetime_range and what it is to be"
    limit = 400
    def __init__(self, start, stop, step): self.start, self.stop, self.step = start, stop, step
    def make(self, s):
        s.add(t="start", kind="range", start=enc(self.start), stop=enc(self.stop), step={"n": limbs(self.step)})
        self.it, self.x = guarded(rec.MODS["simulate"].datetime_range, (self.start, self.stop, self.step), {})
        if self.x is not None: s.add(t="next", time=enc_exc(self.x))
    def item(self, s):
        "asks for the next one; whether there may be more"
        if self.x is not None: return False
        r, self.x = guarded(lambda: next(self.it), (), {})
        if isinstance(self.x, StopIteration): s.add(t="stop"); return False
        if self.x is not None: s.add(t="next", time=enc_exc(self.x)); return False
        return self.record(s, r)
    def record(self, s, r):
        if not isinstance(r, datetime.datetime): s.add(t="next", time=enc(r)); return False
        if (r.tzinfo is None) != (self.start.tzinfo is None): s.add(t="next", time={"other": "tz"}); return False
        s.add(t="next", time=enc(r))
        return True
    def close(self, s):
        if hasattr(self.it, "close"): self.it.close()
        s.add(t="close")
    def all(self, s):
        self.make(s)
        n = 0
        while n <= self.limit and self.item(s): n += 1
class Simulation(Range):
    limit = 60
    def __init__(self, lat, lon, hor, t, end, step, kw, style):
        self.place, self.hor, self.start, self.stop, self.step = (lat, lon), hor, t, end, step
        self.el, self.te, self.pr = kw.get("elevation", 0), kw.get("temperature", 288.15), kw.get("pressure", 101325.0)
        p = [lat, lon, hor, t, end, step]
        if style == "pos" and len(kw) == 3: p += [self.el, self.te, self.pr]; k = {}
        elif style == "kw": k = dict(zip(["latitude_deg", "longitude_deg", "horizon", "start_datetime", "end_datetime", "step_minutes"], p)); k.update(kw); p = []
        else: k = kw
        self.p, self.k = p, k
    def make(self, s):
        s.add(t="start", kind="simulate", start=enc(self.start), stop=enc(self.stop), step={"n": limbs(self.step)},
              args=dict(lat=enc_arg(self.place[0]), lon=enc_arg(self.place[1]), elev=enc_arg(self.el), temp=enc_arg(self.te), press=enc_arg(self.pr), horizon=[limbs(x.item() if hasattr(x, "item") else x) for x in self.hor]))
        self.it, self.x = guarded(rec.MODS["simulate"].simulate_span, self.p, self.k)
        if self.x is not None: s.add(t="next", time=enc_exc(self.x))
    def record(self, s, r):
        if not isinstance(r, tuple) or len(r) != 5 or not isinstance(r[0], datetime.datetime): s.add(t="next", time={"other": "shape"}); return False
        lat, lon = self.place
        s.add(t="yield", time=enc(r[0]), alt=enc(r[1]), azi=enc(r[2]), rad=enc(r[3]), shade=enc(r[4]),
              alone=answer("get_azimuth", lat, lon, r[0], self.el)[1] + answer("get_altitude", lat, lon, r[0], self.el, self.te, self.pr)[1])
        return True
def several(c, s, word, several):
    "a word of the model Several: generators made, asked and closed in turn"
    cur = 0
    for what, who in zip(word[::2], word[1::2]):
        who = int(who)
        if who != cur: s.add(t="turn", **{"from": cur, "to": who}); cur = who
        g = several[who - 1]
        if what == "m": g.make(s)
        elif what in "ne": g.item(s)
        else: g.close(s)
        if s.ev[-1]["t"] == "next" and "dt" not in s.ev[-1]["time"]: break
def ranges(c, s, start, stop, step): Range(start, stop, step).all(s)
def still(R, t, kind=None):
    "t in a timezone of constant offset (or none at all: simulate's own examples are naive)"
    k = kind or R.choice(["utc", "fixed-whole", "fixed-half", "fixed-seconds", "fixed-micro", "custom", "naive"])
    if k == "naive": return t.replace(tzinfo=None)
    return gen.present(R, t, k) or t
def C21(c):
    R = c.R
    units = [1, 60, 30, 15, 0.5, 0.25, 1.5, 7, 1440, 0.1, 2.5, 1 / 60, 0.01, 720.5, 1e-3, 90]
    for i, w in enumerate(c.mine(c.words("Range"))):
        stop, step, cnt = [int(x) for x in w.split("|")]
        for u in R.sample(units, 2 if c.quick else 5):
            s = c.rec()
            t = still(R, gen.instant(R, R.choice(["tables", "recent", "past", "future"])))
            tick = TD(microseconds=round(u * 60e6))
            jitter = R.choice([TD(0), TD(0), TD(microseconds=1), -TD(microseconds=1)])
            end = t + tick * stop + jitter
            if t.tzinfo is not None and R.random() < .5: end = gen.present(R, end.astimezone(UTC), R.choice(["utc", "fixed-whole", "fixed-half"])) or end
            st = u * step
            if isinstance(st, float) and st.is_integer() and R.random() < .7: st = int(st)
            ranges(c, s, t, end, st)
            c.emit(s)
    for _ in range(c.share(250, 5000)):
        s = c.rec()
        t = still(R, gen.instant(R))
        step = R.choice([1, 5, 10, 15, 30, 60, 1440, R.randrange(1, 200), R.uniform(.001, 100), 0.05, 1 / 3, 2 / 7, 1e-5])
        n = R.randrange(0, 30)
        try:
            end = t + TD(minutes=step) * n + R.choice([TD(0), TD(microseconds=1), TD(microseconds=-1), TD(seconds=R.uniform(0, 60)), TD(days=-3), TD(minutes=step) * .999])
            ranges(c, s, t, end, step)
        except OverflowError: continue
        c.emit(s)
    words = c.words("Several")
    for w in c.mine(words) if c.quick else R.sample(words, min(len(words), 4000)):
        w, lens = w.split("|")
        s = c.rec()
        t0 = still(R, gen.modern(R))
        def one(n):
            t = R.choice([t0, t0 + TD(minutes=R.randrange(-90, 90))])
            step = R.choice([30, 30, 1, .5])
            return Range(t, t + TD(minutes=step) * n, step)
        several(c, s, w, [one(int(n)) for n in lens.strip("<>").split(",")])
        c.emit(s)
def C22(c):
    R = c.R
    sim = rec.MODS["simulate"].simulate_span
    def run(*a):
        s = c.rec()
        Simulation(*a).all(s)
        c.emit(s)
    # two of them (or three) side by side: often over the same time, often at the same place
    words = c.words("Several")
    for w in c.mine(words) if c.quick else R.sample(words, min(len(words), 400)):
        w, lens = w.split("|")
        s = c.rec()
        t0 = still(R, gen.modern(R), R.choice(["utc", "fixed-half"])); here = R.uniform(-65, 65), R.uniform(-180, 180); hor0 = [R.randrange(0, 385) for _ in range(36)]
        def one(n):
            step = R.choice([60, 60, 97])
            t = R.choice([t0, t0, gen.present(R, t0, "fixed-half") or t0, t0 + TD(minutes=R.randrange(-90, 90))])
            lat, lon = R.choice([here, here, (R.uniform(-65, 65), R.uniform(-180, 180)), (-here[0], here[1])])
            hor = R.choice([hor0, hor0, [R.randrange(0, 385) for _ in range(36)]])
            kw = dict(temperature=R.uniform(240, 310)) if R.random() < .3 else dict(elevation=R.uniform(0, 5000)) if R.random() < .3 else {}
            return Simulation(lat, lon, hor, t, t + TD(minutes=step) * n, step, kw, "mix")
        several(c, s, w, [one(int(n)) for n in lens.strip("<>").split(",")])
        c.emit(s)
    for i in range(c.share(150, 3000)):
        t = still(R, gen.modern(R), R.choice(["utc", "fixed-whole", "fixed-half", "fixed-seconds", "custom"]))
        lat, lon = R.choice([R.uniform(-70, 70), R.uniform(-90, 90), R.choice([0, 45, -45, 90, -90])]), R.choice([R.uniform(-180, 180), R.uniform(180, 360), 0])
        step = R.choice([10, 60, 120, 180, 240, 30, 7.5, 97])
        n = R.choice([0, 1, 2, 6, 9])
        hl = R.choice([360, 360, 361, 359, 365, 1, 36, 180, 720])
        kind = R.choice(["zero", "high", "mixed", "ramp", "fractions", "steps"])
        hor = {"fractions": [R.choice([R.uniform(0, 390), R.randrange(760) / 2]) for _ in range(hl)], "steps": [float(R.randrange(0, 385)) for _ in range(hl)], "zero": [0] * hl, "high": [380] * hl, "mixed": [R.randrange(0, 385) for _ in range(hl)], "ramp": [k % 381 for k in range(hl)]}[kind]
        kw, like = {}, R.randrange(5)
        if like == 0: hor = tuple(hor)
        elif like == 1 and rec.np is not None: hor = rec.np.array(hor)
        if R.random() < .6:
            te, pr = pick_atm(R); al = dict(elevation=pick_el(R), temperature=te, pressure=pr)
            kw = al if R.random() < .5 else {k: v for k, v in al.items() if R.random() < .5}
        run(lat, lon, hor, t, t + TD(minutes=step) * n + R.choice([TD(0), TD(seconds=1), TD(microseconds=-1)]), step, kw, R.choice(["pos", "kw", "mix"]))
    # horizons that touch the Sun: every entry within one unit of the height at which the shadow begins
    for i in range(c.share(64, 1500)):
        t = still(R, gen.modern(R), R.choice(["utc", "fixed-whole", "fixed-half"]))
        lat, lon = R.uniform(-65, 65), R.uniform(-180, 180)
        step, n, hl = R.choice([60, 97, 30]), 14, R.choice([360, 360, 361, 1, 72])
        end = t + TD(minutes=step) * n + TD(seconds=1)
        hor = [R.randrange(0, 385) for _ in range(hl)]
        first, x = guarded(lambda: list(sim(lat, lon, hor, t, end, step)), (), {})
        if x is None:
            for r in first:
                try: hor[round(r[2]) % hl] = 380 - round(380 * math.sin(math.radians(r[1]))) + R.choice([-1, 0, 0, 1])
                except (TypeError, ValueError, IndexError): pass
        run(lat, lon, hor, t, end, step, {}, "mix")
    # azimuths around north (0/360) and the horizon's seam, and the sunrise edge of the shading rule
    S = rec.MODS["solar"]
    for i in range(c.share(48, 800)):
        t = gen.modern(R)
        lat = R.choice([R.uniform(-70, -30), R.uniform(70, 89)])
        lon = -15 * (t.hour + t.minute / 60 - (12 if lat < 0 else 0)) + R.uniform(-6, 6)
        hl = R.choice([360, 360, 1, 72, 361, 365, 720, 719])
        run(lat, lon, [R.randrange(0, 385) for _ in range(hl)], t, t + TD(minutes=30, seconds=1), R.choice([5, 6, 7.5]), {}, "mix")

# --- C23 ------------------------------------------------------------------------------------------------------------
def C23(c):
    R = c.R
    hs = lambda: R.choice([0, 0.0, 11000, 11000.0, 11000.000001, 11001, 10999.999, R.uniform(-500, 11000), R.uniform(-500, 11000), R.uniform(11000, 40000), R.uniform(-14000, -500), R.randrange(-500, 12000), 1e-6])
    for _ in range(c.share(900, 20000)):
        s = c.rec()
        for _ in range(8):
            h = hs()
            v = dict(h=num(R, h), Ps=R.choice([101325.0, 100000, R.uniform(1, 120000)]), Ts=R.choice([288.15, 300, R.uniform(220, 330)]), Tl=R.choice([-.0065, R.uniform(-.0065, -.001), R.uniform(.001, .01)]),
                     Hb=R.choice([0.0, h, 500, R.uniform(-400, 5000)]), R=R.choice([8.31432, 8.314, R.uniform(8, 9)]), g=R.choice([9.80665, 9.8, R.uniform(1, 12)]), M=R.choice([.0289644, R.uniform(.01, .05)]))
            if any(ts + tl * (h - hb) <= 20 for ts in (v["Ts"], 288.15) for tl in (v["Tl"], -.0065) for hb in (v["Hb"], 0)): continue      # whichever are left out
            call(R, s, "get_pressure_with_elevation", v); call(R, s, "get_temperature_with_elevation", v)
        for h in (0, 0.0, 11000, 11000.5, R.uniform(0, 11000), R.uniform(11000, 40000)): s.call("get_pressure_with_elevation", h); s.call("get_temperature_with_elevation", h)
        c.emit(s)

# --- C25 ------------------------------------------------------------------------------------------------------------
def C25(c):
    import subprocess
    R = c.R
    script = os.path.join(rec.REPO, "util", "get_delta_t")
    src = open(script).read()
    code = compile(src, script, "exec")
    tmp = tempfile.mkdtemp(prefix="vscript")
    path = os.path.join(tmp, "deltat.data")
    def run(text):
        with open(path, "w") as f: f.write(text)
        out = io.StringIO()
        argv = sys.argv
        sys.argv = [script, path]
        try:
            def go():
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()): exec(code, {"__name__": "__main__", "__file__": script})
            x = None
            try: _, x = guarded(go, (), {})
            except SystemExit as e: x = RuntimeError("exit") if e.code not in (None, 0) else None
        finally: sys.argv = argv
        return out.getvalue(), x
    def table(text):
        "the printed table, or None if it is not a complete Python table"
        ns = {}
        try: exec(compile(text, "table", "exec"), {"__builtins__": {}}, ns)
        except Exception: return None
        if not {"delta_t", "delta_t_base_year", "delta_t_base_month"} <= set(ns): return None
        return ns
    def record(s, lines, blank=False, seps=False):
        rows, text = [], ""
        for y, m, d, v in lines:
            if blank and R.random() < .4: text += R.choice(["\n", "  \n", "\t\n"])
            sep = R.choice([" ", "  ", "\t", "   "]) if seps else " "
            text += (R.choice(["", " ", "  "]) if seps else " ") + sep.join([str(y), str(m), str(d), v]) + (R.choice(["", " ", "  "]) if seps else "") + "\n"
            rows.append([y, m, d, limbs(__import__("fractions").Fraction(v))])
        if R.random() < .3: text = text.rstrip("\n")
        if blank: text += R.choice(["", "\n", "\n\n"])
        o, x = run(text)
        e = dict(t="script", lines=rows)
        if x is None or o:
            t = table(o)
            if x is None and t is None: e["out"] = {"year": 0, "month": 0, "rows": []}
            elif t is not None and (x is None or rec_complete(o)):
                try: e["out"] = {"year": int(t["delta_t_base_year"]), "month": int(t["delta_t_base_month"]), "rows": [[limbs(float(v)) for v in r] for r in t["delta_t"]]}
                except (TypeError, ValueError): e["out"] = {"year": 0, "month": 0, "rows": []}
        s.add(**e)
    def rec_complete(o): return o.rstrip().endswith("] # delta_t") or o.rstrip().endswith("]")
    val = lambda: R.choice(["%.4f" % R.uniform(40, 80), "%.4f" % R.uniform(0, 10), "%.5f" % R.uniform(40, 80), "%.3f" % R.uniform(-10, 80), "%d" % R.randrange(100), "63.8285", "9.99995", "%.6f" % R.uniform(100, 200)])
    try:
        s = c.rec()
        for w in c.mine(c.words("Script")):
            ls = [[int(x) for x in l.split(",")] for l in w.split(";")]
            record(s, [(y, m, d, val()) for y, m, d in ls], blank=R.random() < .3, seps=R.random() < .3)
            if len(s.ev) >= 40: c.emit(s); s = c.rec()
        c.emit(s)
        # long tables, complete or with one line wrong somewhere
        for _ in range(c.share(250, 6000)):
            s = c.rec()
            y, m = R.choice([1973, 1999, 1657, 2020, 1]), R.choice([1, 2, 6, 11, 12, R.randrange(1, 13)])
            n = R.choice([1, 2, 3, 11, 12, 13, 24, 25, R.randrange(1, 60), R.randrange(1, 60)])
            lines = []
            for _ in range(n):
                lines.append([y, m, 1, val()])
                m += 1
                if m > 12: y, m = y + 1, 1
            k = R.choice(["ok", "ok", "skip", "repeat", "swap", "day", "year", "month", "skipyear", "dec", "repeatyear"])
            i = R.randrange(n)
            if k == "skip" and n > 2: del lines[R.randrange(1, n - 1)]
            elif k == "repeat": lines.insert(i, list(lines[i]))
            elif k == "swap" and n > 1: j = R.randrange(n - 1); lines[j], lines[j + 1] = lines[j + 1], lines[j]
            elif k == "day": lines[i][2] = R.choice([0, 2, 15, 28, 31, 10, 11])
            elif k == "year": lines[i][0] += R.choice([-1, 1, 2, 100])
            elif k == "month": lines[i][1] = R.randrange(1, 13)
            elif k == "skipyear":
                for l in lines[i:]: l[0] += 1
            elif k == "dec": lines = [l for l in lines if l[1] != 12]
            elif k == "repeatyear":
                for l in lines[i:]: l[0] -= 1
            record(s, lines, blank=R.random() < .4, seps=R.random() < .3)
            c.emit(s)
        # as a process of its own, the way it is used
        for j in range(c.share(8, 32)):
            s = c.rec()
            lines = [[1999, 11, 1, val()], [1999, 12, 1, val()], [2000, 1, 1, val()], [2000, 2, 1, val()]]
            bad = j % 2
            if bad: del lines[R.choice([1, 2])]
            with open(path, "w") as f: f.write("".join(" %d  %d  %d  %s\n" % tuple(l) for l in lines))
            p = subprocess.run([sys.executable, script, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            t = table(p.stdout)
            e = dict(t="script", lines=[[y, m, d, limbs(__import__("fractions").Fraction(v))] for y, m, d, v in lines])
            if p.returncode == 0 or t is not None: e["out"] = {"year": t["delta_t_base_year"], "month": t["delta_t_base_month"], "rows": [[limbs(float(v)) for v in r] for r in t["delta_t"]]} if t else {"year": 0, "month": 0, "rows": []}
            s.add(**e)
            c.emit(s)
    finally:
        import shutil; shutil.rmtree(tmp)

# --- C26 ------------------------------------------------------------------------------------------------------------
def C26(c):
    R = c.R
    B = ["high-frequency", "low-frequency"]
    for _ in range(c.share(700, 15000)):
        s = c.rec()
        al = R.choice([R.uniform(.5, 89.9), R.uniform(5, 89), R.choice([90 - 1e-6, 1, 10, 30, 45, 60, 89.99])])
        am = dict(pressure_millibars=R.choice([1013.25, 1000, R.uniform(300, 1080), R.uniform(300, 1080), 0]), ozone_atm_cm=R.choice([.35, R.uniform(0, .6), 0, 0.]), nitrogen_atm_cm=R.choice([.0002, 0, R.uniform(0, .03)]), precipitable_water_cm=R.choice([5.0, 0, R.uniform(0, 10)]),
                  turbidity_alpha=R.choice([1.3, R.uniform(0, 2.5), R.uniform(0, 2.5), 0]), turbidity_beta=R.choice([.6, 0, R.uniform(0, .3), R.uniform(0, 1.1)]))
        if R.random() < .15: am.update(R.choice([dict(pressure_millibars=R.uniform(1080, 4000)), dict(precipitable_water_cm=R.uniform(10, 40)), dict(ozone_atm_cm=R.uniform(.6, 3))]))
        ma = R.choice([1.0, 1, R.uniform(1, 10), R.uniform(1, 38), 1.66])
        for b in B:
            s.call("get_aerosol_scattering_correction_factor", b, ma, R.uniform(0, 2)); s.call("get_aerosol_transmittance", b, ma, R.uniform(0, 2)); s.call("get_aerosol_scattering_transmittance", b, ma, R.uniform(0, 2))
            s.call("get_gas_transmittance", b, ma); s.call("get_ground_albedo", b); s.call("get_nitrogen_transmittance", b, ma, am["nitrogen_atm_cm"]); s.call("get_ozone_transmittance", b, ma, am["ozone_atm_cm"])
            s.call("get_rayleigh_extinction_forward_scattering_fraction", b, ma); s.call("get_rayleigh_transmittance", b, ma); s.call("get_sky_albedo", b, am["turbidity_alpha"], am["turbidity_beta"])
            s.call("get_water_vapor_transmittance", b, ma, am["precipitable_water_cm"]); s.call("get_water_vapor_transmittance_coefficients", b, am["precipitable_water_cm"])
            s.call("get_effective_aerosol_wavelength", b, ma, am["turbidity_alpha"], am["turbidity_beta"])
            call(R, s, "get_backscattered_diffuse_irradiance_by_band", dict(am, band=b, Ebi=R.uniform(0, 700), Edpi=R.uniform(0, 300)))
            for op in ("get_beam_irradiance_by_band", "get_direct_normal_irradiance_by_band"): call(R, s, op, dict(am, band=b, altitude_deg=al))
            # beyond the published ranges the expressions still say what they say
            s.call("get_nitrogen_transmittance", b, R.uniform(1, 60), R.choice([R.uniform(0, 2), 10 ** R.uniform(-6, 1)])); s.call("get_ozone_transmittance", b, R.uniform(1, 60), R.uniform(0, 3)); s.call("get_water_vapor_transmittance", b, R.uniform(1, 60), R.uniform(0, 40))
            s.call("get_gas_transmittance", b, R.uniform(0, 60)); s.call("get_aerosol_scattering_correction_factor", b, R.uniform(0, 60), R.uniform(0, 2)); s.call("get_aerosol_transmittance", b, R.uniform(0, 60), R.uniform(0, 5)); s.call("get_aerosol_scattering_transmittance", b, R.uniform(0, 60), R.uniform(0, 5))
        for op in ("get_beam_broadband_irradiance", "get_broadband_direct_normal_irradiance"):
            call(R, s, op, dict(am, altitude_deg=al)); call(R, s, op, dict(am, altitude_deg=al, turbidity_beta=.05), opt=.2)
        if R.random() < .2:
            call(R, s, "get_global_broadband_irradiance", dict(am, altitude_deg=al)); call(R, s, "get_diffuse_broadband_irradiance", dict(am, air_mass=R.choice([1.66, R.uniform(1, 10)])))
            for op in ("get_diffuse_irradiance_by_band", "get_backscattered_diffuse_broadband_irradiance"): call(R, s, op, dict(am, band=R.choice(B), air_mass=R.choice([1.66, R.uniform(1, 10)])))
        s.call("get_aerosol_forward_scatterance_factor", al); s.call("get_aerosol_optical_depth", am["turbidity_beta"], R.uniform(.3, 2), am["turbidity_alpha"]); s.call("get_aerosol_optical_depth", R.uniform(0, 3), R.uniform(.1, 5), R.uniform(-3, 6))
        low = R.choice([R.uniform(-3, 0), R.uniform(-.9, .5), 0, 0.])         # the air goes on below the horizon
        for op in ("get_optical_mass_ozone", "get_optical_mass_water", "get_optical_mass_aerosol"): s.call(op, num(R, al)); s.call(op, low)
        s.call("get_optical_mass_rayleigh", al, am["pressure_millibars"]); s.call("get_optical_mass_rayleigh", low, am["pressure_millibars"])
        for op in ("get_beam_irradiance_by_band", "get_direct_normal_irradiance_by_band"): call(R, s, op, dict(am, band=R.choice(B), altitude_deg=low))
        c.emit(s)

# --- C30 ------------------------------------------------------------------------------------------------------------
def ambient(out, show):
    "the state of the process that a library has to leave alone, part by part"
    import decimal, locale, logging, hashlib, gc, signal, threading, time, builtins, atexit, resource, socket, fractions, numbers, warnings as W
    h = lambda x: hashlib.md5(repr(x).encode()).hexdigest()[:10]
    ident = lambda m: h(sorted((k, id(v)) for k, v in vars(m).items() if not k.startswith("__") and k not in ("_strptime",)))
    x = [("stdout", (sys.stdout is out, sys.stderr is out)), ("warnings", [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in W.filters]), ("showwarning", (W.showwarning is show, id(W.warn))), ("environ", sorted(os.environ.items())), ("cwd", os.getcwd()), ("path", sys.path),
         ("zone", (time.tzname, time.timezone, time.daylight)), ("locale", locale.setlocale(locale.LC_ALL, None)), ("decimal", repr(decimal.getcontext())), ("random", random.getstate()), ("recursion", sys.getrecursionlimit()), ("gc", (gc.isenabled(), gc.get_threshold())),
         ("logging", (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)), ("alarm", [signal.getsignal(n) is None or str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM)]), ("threads", threading.active_count()), ("trace", (sys.gettrace() is None, sys.getprofile() is None)),
         ("math", ident(math)), ("datetime", ident(datetime)), ("builtins", ident(builtins)), ("hook", (id(sys.excepthook), sys.getswitchinterval())), ("files", len(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else 0), ("cwd-files", sorted(os.listdir(".")))]
    mask = os.umask(0); os.umask(mask)
    import faulthandler, tracemalloc
    x += [("faults", (faulthandler.is_enabled(), tracemalloc.is_tracing())), ("priority", os.getpriority(os.PRIO_PROCESS, 0)), ("thread-trace", [id(g()) for g in (getattr(threading, "gettrace", int), getattr(threading, "getprofile", int)) if g is not int]), ("streams", [id(sys.stdin), id(sys.__stdout__), id(sys.__stderr__)]),
          ("interned", (getattr(sys, "getdlopenflags", int)(), getattr(sys, "flags"))), ("hashing", (sys.hash_info, sys.float_repr_style))]
    x += [("atexit", atexit._ncallbacks()), ("umask", mask), ("digits", getattr(sys, "get_int_max_str_digits", int)()), ("bytecode", (sys.dont_write_bytecode, sys.pycache_prefix)), ("importers", ([str(m) for m in sys.meta_path], len(sys.path_hooks))), ("display", (id(sys.displayhook), id(threading.excepthook), id(getattr(sys, "unraisablehook", None)))),
          ("stack", threading.stack_size()), ("limits", [resource.getrlimit(n) for n in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CORE)]), ("timer", signal.getitimer(signal.ITIMER_REAL)), ("signals", [str(signal.getsignal(n)) for n in (signal.SIGALRM, signal.SIGPIPE, signal.SIGCHLD, signal.SIGFPE, signal.SIGUSR1)]),
          ("sockets", socket.getdefaulttimeout()), ("decimal-default", repr(decimal.DefaultContext)), ("numbers", (ident(numbers), ident(fractions))), ("default-encoding", (sys.getdefaultencoding(), locale.getpreferredencoding(False))), ("warn-once", len(getattr(W, "onceregistry", ()))), ("argv", sys.argv)]
    if rec.np is not None:
        np = rec.np
        st = np.random.get_state()
        x += [("np-buffer", np.getbufsize())]
        x += [("np-err", sorted(np.geterr().items())), ("np-call", np.geterrcall() is None), ("np-random", (st[1][:5].tolist(), st[2], hash(st[1].tobytes()))), ("np-print", sorted((k, str(v)) for k, v in np.get_printoptions().items())), ("numpy", h([id(getattr(np, n)) for n in ("sin", "cos", "where", "arcsin", "array", "exp", "log", "radians")]))]
    return ["%s=%s" % (k, h(v)) for k, v in x]
class Sink(io.StringIO):
    pass
def quiet(*a): return None
def unusual(n):
    "settings of the process that are not the defaults: what sets the defaults shows, too"
    import decimal, gc, socket, threading
    if n % 2 == 0: return
    os.umask(0o027); sys.setrecursionlimit(1000 + 111 * (n % 5) + 111); sys.setswitchinterval(.004); gc.set_threshold(701, 11, 11); [gc.enable, gc.disable][n % 4 == 1](); decimal.getcontext().prec = 27; decimal.getcontext().rounding = "ROUND_DOWN"; socket.setdefaulttimeout(77)
    sys.displayhook = lambda x: None
    threading.setprofile(quiet); threading.settrace(quiet)
    if rec.np is not None: rec.np.set_printoptions(precision=7, linewidth=70); rec.np.seterr(over="ignore")
def around(s, name, f, a, kw, **more):
    out = Sink()
    so, se = sys.stdout, sys.stderr
    with rec.warnings.catch_warnings(record=True) as w:
        rec.warnings.simplefilter("always")
        sys.stdout = sys.stderr = out
        show = rec.warnings.showwarning
        try:
            b = ambient(out, show)
            r, x = guarded(f, a, kw)
            z = ambient(out, show)
        finally: sys.stdout, sys.stderr = so, se
    e = dict(t="around", what=name, out=len(out.getvalue()), cat=[q.category.__name__ for q in w], before=b, after=z)
    e.update(more)
    s.add(**e)
    return r, x
def C30(c):
    "calls leave the process alone: recorded from a directory of their own"
    import tempfile, shutil
    here, own = os.getcwd(), tempfile.mkdtemp(prefix="own")
    unusual(c.part)
    os.chdir(own)
    try: c30(c)
    finally:
        os.chdir(here)
        shutil.rmtree(own, ignore_errors=True)
def c30(c):
    R = c.R
    state = random.getstate()
    kinds = EVERY + [("simulate", "simulate_span", None)]
    for i in range(c.share(60, 1200)):
        t = gen.instant(R) if i % 2 else gen.modern(R)
        w = gen.some_tz(R, t)
        base = dict(w=w, l=R.uniform(-60, 60), L=R.uniform(-180, 180))
        s = c.rec()
        order = list(EVERY); R.shuffle(order)
        np = rec.np
        for m, n, ks in order[:60 if c.quick else 200]:
            a = [every_value(R, k, base) for k in ks]
            kw = {}
            how = R.randrange(10)
            when = enc_dt(w)
            if m == "simulate":      # a whole generator inside one call
                a = [x if not isinstance(x, datetime.datetime) else w for x in a]
                j = max(k for k, x in enumerate(a) if isinstance(x, datetime.datetime))
                if w.year > 9990: continue
                a[j] = w + TD(hours=3)
                f = getattr(rec.MODS[m], n); g = lambda *a, f=f: list(f(*a))
                around(s, n, g, a, kw, when=enc_dt(a[j]))
                continue
            if how == 0 and "w" in ks: a[ks.index("w")] = w.replace(tzinfo=None)                  # refused
            elif how == 1 and a: a[R.randrange(len(a))] = R.choice(["x", None])                     # fails
            elif how == 2 and "l" in ks: a[ks.index("l")] = R.choice([90, -90, 90., 0, 89.9999])
            elif how == 3 and np is not None and s.mode == "numpy" and "l" in ks and n not in RISES: a[ks.index("l")] = np.array([R.uniform(-60, 60), 0., 90.])
            elif how == 4 and np is not None and s.mode == "numpy" and "a" in ks: a[ks.index("a")] = np.array([[0., 90., R.uniform(0, 360)]])
            elif how in (5, 6):                                                                     # awkward numbers
                at = [j for j, x in enumerate(a) if type(x) in (int, float)]
                if at: a[R.choice(at)] = R.choice([0, 0., -0., 90, -90, 180, 360, -1, 1, 1e-300, 1e30, -5.11])
            more = dict(when=when) if "w" in ks else {}
            if n == "get_pressure_with_elevation":
                a[0] = R.choice([0, 5000., 11000, 11000.5, 20000])
                more["h"] = limbs(a[0])
            around(s, n, getattr(rec.MODS[m], n), a, kw, **more)
            if R.random() < .03: around(s, "use", getattr(rec.pysolar, "use_" + s.mode), (), {})
        if i % 4 == 0: around(s, "elevation_test", rec.MODS["elevation"].elevation_test, (), {})        # these print
        if i % 4 == 2: around(s, "solar_test", rec.MODS["solar"].solar_test, (), {}, when=enc_dt(datetime.datetime.now(UTC) + TD(days=1)))
        c.emit(s)
    # importing the package, and first use, in a process of its own
    import subprocess
    for j in range(c.share(16, 64)):
        s = c.rec()
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--import", str(j)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=import_env(j))
        lines = p.stdout.split("\n") if p.returncode == 0 else []
        if len(lines) == 3:
            b, z, out = json.loads(lines[0]), json.loads(lines[1]), lines[2]
        else: b, z, out = ["process=0"], ["process=failed"], p.stderr
        s.add(t="around", what="import", out=len(out) + len(p.stderr), cat=[], before=b, after=z)
        c.emit(s)
def import_env(j):
    "the environment of a process that imports the package: with more or less in it"
    e = dict(os.environ, PYTHONWARNINGS="default")
    if j % 2:
        keep = ("PATH", "PYTHONWARNINGS", "PYTHONDONTWRITEBYTECODE") + tuple(k for k in e if k.startswith("VERIF"))
        e = {k: v for k, v in e.items() if k in keep}
    if j % 4 == 2: e.update(TZ="Asia/Tokyo", LANG="de_DE.UTF-8", LC_ALL="C", OMP_NUM_THREADS="2", HOME="/nonexistent")
    return e
def import_main(j):
    "state before and after the import of everything and first calls, then what was printed"
    import json as J, decimal, locale, logging, threading, inspect, warnings, time
    rec.sys.modules.pop("pysolar", None)
    so, out, show = sys.stdout, Sink(), warnings.showwarning
    unusual(int(j) // 2)
    sys.stdout = sys.stderr = out
    b0 = ambient(out, show)
    try:
        rec.load()
        if int(j) % 2: rec.fn("get_position")(40., -70., D(2015, 6, 1, 12, tzinfo=UTC)); rec.fn("get_sunrise_time")(40., -70., D(2015, 6, 1, 12, tzinfo=UTC)); rec.fn("get_radiation_direct")(D(2015, 6, 1, 12, tzinfo=UTC), 30.)
        if int(j) % 4 > 1: rec.pysolar.use_math(); rec.fn("get_altitude_fast")(40., -70., D(2015, 6, 1, 12, tzinfo=UTC))
    finally:
        z0 = ambient(out, show)
        sys.stdout, sys.stderr = so, sys.__stderr__
    print(J.dumps(b0)); print(J.dumps(z0)); print(out.getvalue().replace("\n", " "), end="")
    return 0

# --- C31 ------------------------------------------------------------------------------------------------------------
def answer(op, *a, **kw):
    "an answer, encoded; of several numbers one after the other"
    with rec.warnings.catch_warnings():
        rec.warnings.simplefilter("ignore")
        r, x = guarded(rec.fn(op), a, kw)
    return r, ([enc_exc(x)] if x is not None else [enc(y) for y in r] if isinstance(r, tuple) else [enc(r)])
def calendar_leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def C31(c):
    R = c.R
    off = lambda: TD(seconds=R.choice([0, 0, R.uniform(0, 90)]))
    def moment():
        y, k = R.randrange(1950, 2050), R.randrange(6)
        if k == 0: w = D(y, 12, 31, 23, 59, R.randrange(30, 60), tzinfo=UTC)
        elif k == 1: w = D(y, R.randrange(1, 13), 1, tzinfo=UTC) - TD(seconds=R.randrange(1, 40))
        elif k == 2: w = D(y, *gen.day(R, y, R.choice(gen.DAYS)), R.randrange(24), R.randrange(60), R.randrange(60), R.randrange(10**6), tzinfo=UTC)
        elif k == 3: w = D(y, 2, 28, 23, 59, 59, tzinfo=UTC) + R.choice([0, 1]) * TD(days=1)
        else: w = D(y, 1, 1, tzinfo=UTC) + TD(seconds=R.uniform(0, 365 * 86400))
        return w
    for i in range(c.share(480, 24000)):
        s = c.rec()
        t = moment()
        show = lambda t: gen.some_tz(R, t)
        lat, lon = pick_place(R, .3)
        if abs(lon) > 180: lon = R.uniform(-180, 180)
        def rel(name, x, *q): s.add(t="relate", rel=name, x=x, q=[limbs(v) for v in q])
        pos = lambda w, la=lat, lo=lon, **k: answer("get_position", la, lo, show(w), pressure=0, **k)[1]
        alt = lambda w, la=lat, lo=lon, **k: answer("get_altitude", la, lo, show(w), pressure=0, **k)[1]
        fast = lambda w: answer("get_altitude_fast", lat, lon, show(w))[1]
        here = pos(t)
        rel("fast", here + answer("get_azimuth_fast", lat, lon, show(t))[1] + fast(t))
        rel("turn", here + pos(t, lo=lon + R.choice([-360, 360])))
        dt = R.choice([1, R.randrange(1, 90), R.randrange(1, 3601)])
        rel("turning", alt(t) + alt(t + TD(seconds=dt)), dt)
        rel("shifted", here + pos(t + TD(seconds=dt), lo=lon - dt / 240.), dt)
        rel("turning-fast", fast(t) + fast(t + TD(seconds=60)))
        rel("four-years", alt(t) + alt(t + TD(days=1461)))
        e = R.uniform(50, 500)
        rel("depth", alt(t, elevation=-e) + alt(t) + alt(t, elevation=e))
        rel("height", alt(t) + alt(t, elevation=R.uniform(-400, 9000)))
        p, k = R.choice([0, 101325, R.uniform(0, 110000)]), R.uniform(220, 320)
        x = [answer("get_altitude", lat, lon, show(t), 0, b, a)[1][0] for a, b in ((p, k), (0, k), (p + R.uniform(100, 5000), k), (p, k + R.uniform(1, 30)))]
        rel("refraction", x, p, k)
        n = t.timetuple().tm_yday
        flux = answer("get_apparent_extraterrestrial_flux", n)[1]
        rel("poles", alt(t, la=90) + alt(t, la=90, lo=R.uniform(-180, 180)) + alt(t, la=-90) + answer("declination_degree", show(t))[1])
        jme = None
        jde, _ = answer("get_julian_ephemeris_day", show(t))
        if isinstance(jde, (int, float)) or rec.np is not None and isinstance(jde, rec.np.generic):
            jce = answer("get_julian_ephemeris_century", jde)[0]
            r = answer("get_sun_earth_distance", answer("get_julian_ephemeris_millennium", jce)[0])[1]
            rel("distance", r + answer("mean_earth_sun_distance", show(t))[1] + flux)
        else: rel("distance", [enc("no Julian date")])
        a = R.choice([R.uniform(-90, 90), R.uniform(-1, 3), 0, 0.])
        b = min(90., a + R.uniform(.01, 10))
        rel("radiation", answer("get_radiation_direct", show(t), a)[1] + answer("get_radiation_direct", show(t), b)[1] + flux, a, b)
        d, a = R.choice([.02, .1, .3, .5]), R.uniform(-1, 89)
        q = [min(90., a + d * k) for k in range(12)]
        w = show(t)
        rel("climb", sum([answer("get_radiation_direct", w, v)[1] for v in q], []), *q)
        e = R.choice([R.uniform(-.83, 89), R.uniform(-.83, 10)])      # the formula is negative in the last tenth of a degree
        q = sorted([10 ** R.uniform(-1, 6.5) for _ in range(4)] + [R.uniform(0, 110000), 0])
        rel("denser", sum([answer("get_refraction_correction", v, 283, e)[1] for v in q], []), *q)
        q = sorted([10 ** R.uniform(0, 3.5) for _ in range(3)] + [R.uniform(180, 330) for _ in range(2)], reverse=True)
        rel("denser", sum([answer("get_refraction_correction", 101000, v, e)[1] for v in q], []), *q)
        h, d = R.uniform(-500, 10990), R.uniform(.5, 10)
        rel("hydrostatic", answer("get_pressure_with_elevation", h)[1] + answer("get_temperature_with_elevation", h)[1] + answer("get_pressure_with_elevation", h + d)[1], d)
        d = R.choice([365, 366, R.randrange(1, 367)])
        e = d + 1 if d < 365 + calendar_leap(t.year) else 1
        for j, f in enumerate(("get_declination", "equation_of_time", "get_apparent_extraterrestrial_flux", "get_optical_depth")): rel("daily", answer(f, d)[1] + answer(f, e)[1], j + 1)
        y, z = t.replace(hour=R.randrange(24)), None
        for j, f in enumerate(("declination_degree", "mean_earth_sun_distance")): rel("daily", answer(f, y)[1] + answer(f, y + TD(days=1))[1], [1, 5][j])
        lat = R.choice([R.uniform(-60, 60), 0., R.choice([-60, 60, 23.44])])
        w = show(t)
        far = R.uniform(lat, 60)
        z = w + TD(days=1)
        days = [guarded(rec.fn("get_sunrise_sunset_transit"), (q, lon, v), {})[0] for q, v in ((lat, w), (lat, z), (far, w))]
        if all(isinstance(r, tuple) and len(r) == 3 and all(isinstance(y, datetime.datetime) and y.tzinfo for y in r) for r in days):
            days = [[y.astimezone(UTC) for y in r] for r in days]
            minutes = lambda d: d.total_seconds() / 60
            if w.utcoffset() == z.utcoffset(): rel("next-day", [enc(minutes(b - a) - 1440) for a, b in zip(days[0], days[1])])
            rel("longer-days", [enc(minutes(days[k][1] - days[k][0])) for k in (0, 2)] + answer("declination_degree", w)[1], lat)
        else: rel("next-day", [enc("no sunrise")])
        r, x = guarded(rec.fn("get_sunrise_sunset_transit"), (lat, lon, w), {})
        if x is not None or not isinstance(r, tuple) or len(r) != 3 or not all(isinstance(y, datetime.datetime) and y.tzinfo for y in r): rel("horizon", [enc_exc(x or ValueError())])
        else:
            rise, sets, tr = (y.astimezone(UTC) for y in r)
            rel("horizon", alt(rise, la=lat)); rel("horizon", alt(sets, la=lat))
            z = pos(tr, la=lat)
            rel("transit", [z[1], z[0]] + sum([alt(tr + TD(seconds=R.choice([1, -1]) * R.uniform(0, 43200)), la=lat) for _ in range(3)], []))
        c.emit(s)

# --- C29 ------------------------------------------------------------------------------------------------------------
VALUES = dict(when=lambda R: gen.some_tz(R, gen.modern(R)), latitude_deg=lambda R: R.uniform(-65, 65), longitude_deg=lambda R: R.uniform(-179, 179), elevation=lambda R: R.uniform(1, 5000), temperature=lambda R: R.uniform(240, 315), pressure=lambda R: R.uniform(50000, 108000),
    TY=lambda R: R.uniform(360, 367), AM=lambda R: R.uniform(.5, 4), TL=lambda R: R.uniform(.5, 7), SC=lambda R: R.uniform(1300, 1400), altitude_deg=lambda R: R.uniform(3, 88), julian_day=lambda R: 2451545. + R.uniform(-2e4, 2e4), julian_ephemeris_day=lambda R: 2451545. + R.uniform(-2e4, 2e4),
    julian_ephemeris_century=lambda R: R.uniform(-1, 1), jd=lambda R: 2451545. + R.uniform(-2e4, 2e4), jme=lambda R: R.uniform(-.1, .1), jce=lambda R: R.uniform(-1, 1), day=lambda R: R.randrange(1, 367), nutation=lambda R: {"longitude": R.uniform(-.006, .006), "obliquity": R.uniform(-.003, .003)},
    sun_earth_distance=lambda R: R.uniform(.9, 1.1), geocentric_longitude=lambda R: R.uniform(0, 360), ab_correction=lambda R: R.uniform(-.1, .1), latitude=lambda R: R.uniform(-80, 80), apparent_sun_longitude=lambda R: R.uniform(0, 360), true_ecliptic_obliquity=lambda R: R.uniform(20, 26), geocentric_latitude=lambda R: R.uniform(-5, 5),
    topocentric_zenith_angle=lambda R: R.uniform(1, 89), slope=lambda R: R.uniform(1, 89), slope_orientation=lambda R: R.uniform(-170, 170), topocentric_azimuth_angle=lambda R: R.uniform(0, 360), apparent_sidereal_time=lambda R: R.uniform(0, 360), longitude=lambda R: R.uniform(-180, 180), geocentric_sun_right_ascension=lambda R: R.uniform(0, 360),
    projected_radial_distance=lambda R: R.uniform(.2, 1), projected_axial_distance=lambda R: R.uniform(-1, 1), equatorial_horizontal_parallax=lambda R: R.uniform(.5, 3), local_hour_angle=lambda R: R.uniform(0, 360), geocentric_sun_declination=lambda R: R.uniform(-24, 24), parallax_sun_right_ascension=lambda R: R.uniform(-.5, .5),
    topocentric_sun_declination=lambda R: R.uniform(-24, 24), topocentric_local_hour_angle=lambda R: R.uniform(0, 360), topocentric_elevation_angle=lambda R: R.uniform(0, 80), DIFF_data=lambda R: R.uniform(1, 900), ghi_data=lambda R: R.uniform(1, 900),
    h=lambda R: R.uniform(10, 10000), Ts=lambda R: R.uniform(270, 310), Tl=lambda R: R.uniform(-.008, -.004), Ps=lambda R: R.uniform(90000, 105000), Hb=lambda R: R.uniform(0, 500), R=lambda R: R.uniform(8, 9), g=lambda R: R.uniform(9, 10), M=lambda R: R.uniform(.027, .031),
    band=lambda R: R.choice(["high-frequency", "low-frequency"]), turbidity_alpha=lambda R: R.uniform(.5, 2.2), turbidity_beta=lambda R: R.uniform(.01, .2), pressure_millibars=lambda R: R.uniform(600, 1080), ozone_atm_cm=lambda R: R.uniform(.1, .6), nitrogen_atm_cm=lambda R: R.uniform(.0001, .02), precipitable_water_cm=lambda R: R.uniform(.1, 8),
    ma=lambda R: R.uniform(1, 10), mw=lambda R: R.uniform(1, 10), mo=lambda R: R.uniform(1, 10), mR=lambda R: R.uniform(1, 10), mRprime=lambda R: R.uniform(1, 10), tau_a=lambda R: R.uniform(.01, 1.5), effective_wavelength=lambda R: R.uniform(.3, 2), Ebi=lambda R: R.uniform(10, 700), Edpi=lambda R: R.uniform(1, 300), w=lambda R: R.uniform(.1, 8), uo=lambda R: R.uniform(.1, .6), air_mass=lambda R: R.uniform(1, 5))
UNFINISHED = {"get_global_broadband_irradiance", "get_diffuse_broadband_irradiance", "get_diffuse_irradiance_by_band", "get_backscattered_diffuse_broadband_irradiance"}
def C29(c):
    R = c.R
    byop = {}
    for w in c.words("Binding"):
        op, n, kw, junk, out = w.split("|")
        byop.setdefault(op, []).append((int(n), kw.split(",") if kw else [], int(junk), out))
    todo = [(op, x) for op in sorted(byop) if op not in UNFINISHED for x in byop[op]]
    for ch in chunks(c.mine(todo) * (1 if c.quick else 3), 12):
        s = c.rec()
        t = gen.some_tz(R, gen.modern(R))
        for op, (n, kw, junk, out) in ch:
            req, opt = PARAMS(op)
            v = {m: VALUES[m](R) for m in req + opt}
            for m in opt:
                if m in NOTHING and R.random() < .2: v[m] = R.choice([0, 0.])
            if "when" in v: v["when"] = t
            if op == "clear_index": v["latitude_deg"], v["longitude_deg"] = t.astimezone(UTC).hour * 0. + R.uniform(-20, 20), 15 * (12 - t.astimezone(UTC).hour) + R.uniform(-15, 15)
            al = req + opt
            p = [v[m] for m in al[:n]] + [v[R.choice(al)] for _ in range(n - len(al))]
            k = {m: v[m] for m in kw}
            if junk: k[R.choice(["no_such_argument", "altitude_degrees", "Latitude_deg", "lat", "temperature_K", "date"])] = R.choice([0, None, 1.5])
            names = list(k); R.shuffle(names)
            k = {m: k[m] for m in names}
            if out == "body": s.call(op, *p, **k)
            else: s.refused("TypeError", rec.fn(op), *p, **k)
        c.emit(s)
    # every option that may be zero at zero: that is not the same as leaving it out
    for op, m in c.mine([(op, m) for op in sorted(byop) if op not in UNFINISHED for m in PARAMS(op)[1] if m in NOTHING]) * (1 if c.quick else 10):
        s = c.rec()
        req, opt = PARAMS(op)
        for j in range(4):
            t = gen.modern(R).astimezone(UTC)
            v = {q: VALUES[q](R) for q in req + opt}
            v["when"], v["longitude_deg"], v["latitude_deg"], v[m] = gen.some_tz(R, t), 15 * (12 - t.hour) + R.uniform(-15, 15), R.uniform(-40, 40), R.choice([0, 0.])       # by day
            k = {q: v[q] for q in req + opt if q in req or q == m or j == 3}
            s.call(op, **k)
        c.emit(s)
    # the same question with defaults left out or written out, in other styles
    for ch in chunks(c.mine([op for op in sorted(byop) if op not in UNFINISHED for _ in range(len(PARAMS(op)[1]) * 2 + 1)]) * (2 if c.quick else 40), 20):
        s = c.rec()
        t = gen.some_tz(R, gen.modern(R))
        for op in ch:
            req, opt = PARAMS(op)
            v = {m: VALUES[m](R) for m in req + opt}
            if "when" in v: v["when"] = t
            if op == "clear_index": v["latitude_deg"], v["longitude_deg"] = R.uniform(-20, 20), 15 * (12 - t.astimezone(UTC).hour) + R.uniform(-15, 15)
            full = {m: v[m] for m in req}
            left = {m for m in opt if R.random() < .6}
            for m in opt: full[m] = DEFAULTS[m] if m in left else v[m]
            def style(keep):
                n = R.randrange(len(full) + 1)
                first = [m for m in full][:n]
                while any(m not in keep for m in first): first.pop()
                names = [m for m in full if m in keep and m not in first]; R.shuffle(names)
                return [full[m] for m in first], {m: full[m] for m in names}
            s.same(op, style(set(full) - left), style(set(full)) if R.random() < .5 else ([full[m] for m in full], {}))
        c.emit(s)
NOTHING = "elevation pressure SC TL Hb g M pressure_millibars ozone_atm_cm nitrogen_atm_cm precipitable_water_cm turbidity_alpha turbidity_beta".split()    # options that may be zero
DEFAULTS = dict(elevation=0, temperature=288.15, pressure=101325., TY=365, AM=2., TL=1., SC=1367., Ts=288.15, Tl=-.0065, Ps=101325., Hb=0., R=8.31432, g=9.80665, M=.0289644, pressure_millibars=1013.25, ozone_atm_cm=.35, nitrogen_atm_cm=.0002, precipitable_water_cm=5., turbidity_alpha=1.3, turbidity_beta=.6, air_mass=1.66)
def PARAMS(op):
    "names of required and optional parameters"
    if op in sigs.SIG: return sigs.names(op)
    return STAGES[op].split(), []
STAGES = dict(get_julian_century="julian_day", get_julian_ephemeris_century="julian_ephemeris_day", get_julian_ephemeris_millennium="julian_ephemeris_century", equation_of_time="day", get_declination="day", get_aberration_correction="sun_earth_distance", get_apparent_sidereal_time="jd jme nutation",
    get_apparent_sun_longitude="geocentric_longitude nutation ab_correction", get_equatorial_horizontal_parallax="sun_earth_distance", get_flattened_latitude="latitude", get_geocentric_latitude="jme", get_geocentric_longitude="jme", get_geocentric_sun_declination="apparent_sun_longitude true_ecliptic_obliquity geocentric_latitude",
    get_geocentric_sun_right_ascension="apparent_sun_longitude true_ecliptic_obliquity geocentric_latitude", get_heliocentric_latitude="jme", get_heliocentric_longitude="jme", get_incidence_angle="topocentric_zenith_angle slope slope_orientation topocentric_azimuth_angle",
    get_local_hour_angle="apparent_sidereal_time longitude geocentric_sun_right_ascension", get_mean_sidereal_time="jd", get_nutation="jce", get_parallax_sun_right_ascension="projected_radial_distance equatorial_horizontal_parallax local_hour_angle geocentric_sun_declination",
    get_projected_radial_distance="elevation latitude", get_projected_axial_distance="elevation latitude", get_sun_earth_distance="jme", get_refraction_correction="pressure temperature topocentric_elevation_angle", get_topocentric_azimuth_angle="topocentric_local_hour_angle latitude topocentric_sun_declination",
    get_topocentric_elevation_angle="latitude topocentric_sun_declination topocentric_local_hour_angle", get_topocentric_local_hour_angle="local_hour_angle parallax_sun_right_ascension",
    get_topocentric_sun_declination="geocentric_sun_declination projected_axial_distance equatorial_horizontal_parallax parallax_sun_right_ascension local_hour_angle",
    get_topocentric_sun_right_ascension="projected_radial_distance equatorial_horizontal_parallax local_hour_angle apparent_sun_longitude true_ecliptic_obliquity geocentric_latitude", get_topocentric_zenith_angle="latitude topocentric_sun_declination topocentric_local_hour_angle pressure temperature",
    get_true_ecliptic_obliquity="jme nutation", get_air_mass_ratio="altitude_deg", get_apparent_extraterrestrial_flux="day", get_optical_depth="day")

# --- C32 ------------------------------------------------------------------------------------------------------------
DOC = """from pysolar.solar import *
import datetime
latitude = 42.206
longitude = -71.382
date = datetime.datetime(2007, 2, 18, 15, 13, 1, 130320, tzinfo=datetime.timezone.utc)
print(get_altitude(latitude, longitude, date))
print(get_azimuth(latitude, longitude, date))
latitude_deg = 42.206 # positive in the northern hemisphere
longitude_deg = -71.382 # negative reckoning west from prime meridian in Greenwich, England
altitude_deg = get_altitude(latitude_deg, longitude_deg, date)
print(radiation.get_radiation_direct(date, altitude_deg))
"""
def C32(c):
    R = c.R
    import subprocess
    n = c.share(64, 1600)
    for ch in chunks([gen.instant(R) if i % 3 == 0 else gen.modern(R) for i in range(n)], 8):
        ch = [t for t in ch if t.year < 9999] + [D(R.randrange(1950, 2050), R.randrange(1, 13), 1, tzinfo=UTC) - TD(seconds=R.randrange(1, 86400))]
        args = [list(t.timetuple()[:6]) + [t.microsecond] for t in ch]
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--demo", json.dumps(args), R.choice(["math", "numpy"]) if rec.np is not None else "math"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        out = json.loads(p.stdout) if p.returncode == 0 else None
        s = c.rec()
        if out is None:
            s.add(t="demo", start=enc(ch[0])); s.add(t="demoend", err=1, odd=0); c.emit(s); continue
        for t, (err, text) in zip(ch, out["solar"]):
            s.add(t="demo", start=enc(t))
            odd = 0
            for l in text.splitlines():
                w = l.split()
                try: z = D.strptime(" ".join(w[:5]), "%a %b %d %H:%M:%S %Y").replace(tzinfo=UTC); x = [float(v) for v in w[6:]]; ok = w[5] == "UTC" and len(x) == 3 and z.ctime() + " UTC" == l[:len(z.ctime()) + 4] and all(v == v and abs(v) < 1e6 for v in x)
                except (ValueError, IndexError): ok = False
                if ok: s.add(t="line", time=enc(z), alt=enc(x[0]), azi=enc(x[1]), rad=enc(x[2]))
                else: odd += 1
            s.add(t="demoend", err=err, odd=odd)
        err, text = out["heights"]
        ls = [l for l in text.splitlines() if l.strip()]
        try: rows = [[limbs(int(x)) for x in l.split()] for l in ls[1:]]; assert all(len(r) == 3 for r in rows)
        except (ValueError, AssertionError): rows = []
        s.add(t="heights", err=err, rows=rows)
        err, text = out["doc"]
        v = text.split() if not err else []
        for k in range(3):
            try: r = enc(float(v[k]))
            except (ValueError, IndexError): r = {"none": 1}
            s.add(t="example", k=k + 1, r=r)
        c.emit(s)
def demo_main(args, mode):
    "runs the demonstrations with the clock set to given instants"
    import types, io, contextlib, time, warnings
    warnings.simplefilter("ignore")
    now = [None]
    class Clock(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            t = cls(*now[0], tzinfo=UTC)
            return t.astimezone(tz) if tz is not None else t.astimezone().replace(tzinfo=None)
        @classmethod
        def utcnow(cls): return cls(*now[0])
        @classmethod
        def today(cls): return cls.now()
    fake = types.ModuleType("datetime"); fake.__dict__.update({k: v for k, v in vars(datetime).items() if not k.startswith("__")})
    fake.datetime = Clock
    time.time = lambda: D(*now[0], tzinfo=UTC).timestamp()
    sys.modules["datetime"] = fake
    import pysolar
    from pysolar import solar, elevation
    if mode == "math": pysolar.use_math()
    def run(f):
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            try: f(); err = 0
            except Exception: err = 1
        return err, o.getvalue()
    res = {"solar": []}
    for a in json.loads(args):
        now[0] = a
        res["solar"].append(run(solar.solar_test))
    sys.modules["datetime"] = datetime
    res["heights"] = run(elevation.elevation_test)
    res["doc"] = run(lambda: exec(DOC, {}))
    print(json.dumps(res))
    return 0

# --- C33 ------------------------------------------------------------------------------------------------------------
def read_stub(path, where):
    "(functions {name: [(parameters, types, {name: type}, answer)]}, values {name: type}, other names)"
    import ast
    with open(path) as f: tree = ast.parse(f.read())
    real = {}
    def ty(a):
        if a is None: return {"c": "Any", "a": []}
        if isinstance(a, ast.Constant):
            if a.value is None: return {"c": "None", "a": []}
            if a.value is Ellipsis: return {"c": "...", "a": []}
            if isinstance(a.value, str): return ty(ast.parse(a.value, mode="eval").body)
            return {"c": "?", "a": []}
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr): return {"c": "Union", "a": [ty(a.left), ty(a.right)]}
        if isinstance(a, ast.Subscript):
            h = ty(a.value)["c"]
            s = getattr(a.slice, "value", a.slice) if type(a.slice).__name__ == "Index" else a.slice
            els = s.elts if isinstance(s, ast.Tuple) else [s]
            if h == "Callable": els = []
            if h == "Annotated": return ty(els[0])
            return {"c": h, "a": [ty(x) for x in els]}
        try: full = ast.unparse(a)
        except Exception: return {"c": "?", "a": []}
        import importlib, builtins, typing
        head = full.split(".")[0]
        o = real.get(head, getattr(builtins, head, None))
        for n in full.split(".")[1:]: o = getattr(o, n, None)
        name = full.split(".")[-1]
        if isinstance(o, str): return {"c": o, "a": []}                    # from typing
        if getattr(o, "__module__", "") in ("typing", "collections.abc"): return {"c": name, "a": []}
        if isinstance(o, type): return {"c": {"list": "List", "dict": "Dict", "tuple": "Tuple"}.get(o.__name__, o.__name__), "a": []}
        if o is None and head == "numpy" and rec.np is None: return {"c": name, "a": []}
        return {"c": "?", "a": []}
    import importlib, types
    fs, vs, others = {}, {}, []
    for n in tree.body:
        if isinstance(n, ast.Import):
            for x in n.names:
                try: m = importlib.import_module(x.name)
                except ImportError: continue
                real[x.asname or x.name.split(".")[0]] = m if x.asname else sys.modules[x.name.split(".")[0]]
                if x.asname == x.name: others.append(x.asname)
        elif isinstance(n, ast.ImportFrom):
            if n.level: others += [x.asname for x in n.names if x.asname == x.name]; continue
            try: m = importlib.import_module(n.module)
            except ImportError: continue
            for x in n.names:
                o = getattr(m, x.name, None)
                real[x.asname or x.name] = x.name if n.module in ("typing", "collections.abc") and o is not None else o
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            pos = getattr(a, "posonlyargs", []) + a.args
            par = [{"n": x.arg, "o": int(i >= len(pos) - len(a.defaults))} for i, x in enumerate(pos)]
            if a.vararg: par.append({"n": "*" + a.vararg.arg, "o": 1})
            par += [{"n": x.arg + "=", "o": int(dv is not None)} for x, dv in zip(a.kwonlyargs, a.kw_defaults)]
            if a.kwarg: par.append({"n": "**" + a.kwarg.arg, "o": 1})
            tys = {x.arg: ty(x.annotation) for x in pos + a.kwonlyargs}
            ret = ty(n.returns)
            fs.setdefault(n.name, []).append((par, [*tys.values(), ret], tys, ret))
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name): vs[n.target.id] = ty(n.annotation)
        elif isinstance(n, ast.Assign): others += [x.id for x in n.targets if isinstance(x, ast.Name)]
        elif isinstance(n, ast.ClassDef): others.append(n.name)
    return fs, vs, others
def real_params(f):
    import inspect
    K = inspect.Parameter
    out = []
    for p in inspect.signature(f).parameters.values():
        pre, post = {K.VAR_POSITIONAL: ("*", ""), K.VAR_KEYWORD: ("**", ""), K.KEYWORD_ONLY: ("", "=")}.get(p.kind, ("", ""))
        out.append({"n": pre + p.name + post, "o": int(p.default is not K.empty or bool(pre))})
    return out
def type_of(x):
    import collections.abc as abc
    if rec.np is not None and isinstance(x, rec.np.ndarray) and x.ndim == 0:        # as good as a number
        return {"m": type_of(x[()])["m"] + ["ndarray"], "i": []}
    m = [c.__name__ for c in type(x).__mro__]
    m += [n for n in ("Iterator", "Generator", "Callable", "Mapping") if isinstance(x, getattr(abc, n))]
    i = []
    if isinstance(x, dict): i = [[type_of(k), type_of(v)] for k, v in x.items()]
    elif isinstance(x, tuple): i = [type_of(v) for v in x]
    elif isinstance(x, list):
        for v in x:
            q = type_of(v)
            if q not in i: i.append(q)
    elif isinstance(x, abc.Iterator):
        for v, _ in zip(x, range(3)): i.append(type_of(v))
    return {"m": m, "i": i}
def C33(c):
    import glob
    R = c.R
    base = os.path.dirname(rec.pysolar.__file__)
    s = c.rec()
    mods = {}
    for path in sorted(glob.glob(os.path.join(base, "*.pyi"))):
        name = os.path.basename(path)[:-4]
        mods["pysolar" if name == "__init__" else name] = path
    objs = dict(rec.MODS, solartime=rec.MODS["stime"], pysolar=rec.pysolar)
    every = ["solartime", "radiation", "elevation", "util", "solar", "simulate", "constants", "pysolar"]
    stubs = {}
    for name in sorted(set(mods) | set(every)):
        if name in every and name not in mods: continue            # no stub: type checkers read the code
        fs, vs, others = stubs[name] = read_stub(mods[name], name)
        if name not in objs:
            import importlib
            try: objs[name] = importlib.import_module("pysolar." + name)
            except ImportError: objs[name] = None
        m = objs[name]
        if c.part: continue
        s.add(t="stub", mod=name, names=sorted(fs) + sorted(vs) + others)
        for n, alts in sorted(fs.items()):
            f = getattr(m, n, None)
            more = dict(real=real_params(f)) if callable(f) else {}
            s.add(t="declare", mod=name, op=n, alts=[dict(par=a[0], ty=a[1]) for a in alts], **more)
        for n, ty in sorted(vs.items()):
            s.add(t="holds", what="value", name=n, ty=[ty], **(dict(v=type_of(getattr(m, n))) if hasattr(m, n) else {}))
        for n in others:
            s.add(t="holds", what="value", name=n, ty=[{"c": "Any", "a": []}], **(dict(v=type_of(getattr(m, n))) if hasattr(m, n) else {}))
    c.emit(s)
    # actual arguments and answers, of the declared types
    def go(s, op, f, alts, p, k):
        r, x = rec.guarded(f, p, k)
        names = [q["n"] for q in alts[0][0]]
        got = {**dict(zip(names, p)), **k}
        for n, v in got.items():
            s.add(t="holds", what="argument", name=op + "." + n, ty=[a[2][n] for a in alts if n in a[2]], v=type_of(v))
        if x is None: s.add(t="holds", what="answer", name=op, ty=[a[3] for a in alts], v=type_of(r))
    todo = [(m, n) for m in every if m in stubs for n in sorted(stubs[m][0]) if n not in ("solar_test", "elevation_test")]
    for ch in chunks([x for x in todo for _ in range(1 if c.quick else 30)], 20):
        s = c.rec()
        t = gen.some_tz(R, gen.modern(R))
        for mod, n in ch:
            f, alts = getattr(objs[mod], n, None), stubs[mod][0][n]
            if f is None: continue
            if n in ("use_numpy", "use_math"): p, k = ([], {}) if n[4:] == s.mode else (None, None)
            elif n == "get_aberration_coeffs": p, k = [], {}
            elif n == "get_coeff": p, k = [VALUES["jme"](R), getattr(rec.MODS["constants"], R.choice(["heliocentric_longitude_coeffs", "heliocentric_latitude_coeffs", "sun_earth_distance_coeffs"]))], {}
            elif n == "datetime_range": p, k = [t, t + TD(minutes=R.randrange(30, 300)), R.choice([30, 17.5, 7])], {}
            elif n == "simulate_span": p, k = [VALUES["latitude_deg"](R), VALUES["longitude_deg"](R), [R.choice([0, 1.5])] * 361, t, t + TD(minutes=R.randrange(30, 300)), R.choice([30, 17.5, 7])], {}
            elif n in sigs.SIG or n in STAGES:
                req, opt = PARAMS(n)
                v = {m: VALUES[m](R) for m in req + opt}
                if "when" in v: v["when"] = t
                if n == "clear_index": v["latitude_deg"], v["longitude_deg"] = R.uniform(-20, 20), 15 * (12 - t.astimezone(UTC).hour) + R.uniform(-15, 15)
                j = R.randrange(len(req), len(req) + len(opt) + 1)
                p, k = [v[m] for m in req], {m: v[m] for m in (req + opt)[len(req):j]}
            else: continue
            if p is not None: go(s, n, f, alts, p, k)
        c.emit(s)

# --- C34 ------------------------------------------------------------------------------------------------------------
import pickle, subprocess
def seen(r):
    "an answer or an error, with the classes in it"
    if isinstance(r, BaseException):
        return "!%s|%s|%s|%s" % (type(r).__qualname__, r, getattr(r, "argname", ""), exact(getattr(r, "dt", None)) if not isinstance(getattr(r, "dt", None), datetime.datetime) else seen(r.dt))
    if isinstance(r, (tuple, list)): return "%s(%s)" % (type(r).__name__, ",".join(seen(x) for x in r))
    if isinstance(r, dict): return "{%s}" % ",".join("%s:%s" % (k, seen(v)) for k, v in r.items())
    if isinstance(r, datetime.datetime): return "%s %r %r" % (exact(r), r.utcoffset(), r.replace(tzinfo=None).isoformat())
    if rec.np is not None and isinstance(r, rec.np.ndarray): return "%s %s" % (r.dtype, exact(r))
    return "%s %s" % (type(r).__name__, exact(r))
def work(conn, life):
    "a process that answers: (what, ...) -> a pickled answer"
    kids = []
    def answer_to(m):
        if m[0] == "ask":
            f = (lambda *p: list(m[1](*p))) if m[4] else m[1]
            with rec.warnings.catch_warnings():
                rec.warnings.simplefilter("ignore")
                r, x = guarded(f, m[2], m[3])
            return ("answer" if x is None else "error", r if x is None else x, rec.MODS["numeric"].current_mod)
        if m[0] == "use": getattr(rec.pysolar, "use_" + m[1])(); return ("used",)
        if m[0] == "fresh":
            kids.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", m[1]], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED=str(m[2]))))
            return ("made",)
    while True:
        try: m = conn.recv_bytes()
        except (EOFError, OSError): break
        try:
            m = pickle.loads(m)
            if m[0] == "fork":
                pid = os.fork()
                if pid == 0:
                    conn.close()
                    worker_main(m[1], False)
                    os._exit(0)
                kids.append(pid)
                r = ("made",)
            else: r = answer_to(m)
        except Exception as e: r = ("failed", repr(e))
        try: b = pickle.dumps(r, m[5] if m[0] == "ask" else None)
        except Exception as e: b = pickle.dumps(("failed", repr(e)))
        try: conn.send_bytes(b)
        except OSError: break
    for k in kids:
        if isinstance(k, int): os.waitpid(k, 0)
        else: k.wait()
def worker_main(addr, fresh=True):
    from multiprocessing.connection import Client
    if fresh: rec.load()
    try: conn = Client(addr, "AF_UNIX")
    except OSError: return
    work(conn, None)
class Pool:
    "the processes of a word of the model Pool; number 1 is this one"
    def __init__(self, s):
        from multiprocessing.connection import Listener
        self.s, self.dir = s, tempfile.mkdtemp(prefix="vpool")
        self.n, self.conns, self.kids = 1, {}, []
        self.Listener = Listener
    def tell(self, p, m):
        "the reply of process p, or why there is none"
        try:
            c = self.conns[p]
            c.send_bytes(pickle.dumps(m, m[5] if m[0] == "ask" else None))
            if not c.poll(90): return ("failed", "no reply")
            return pickle.loads(c.recv_bytes())
        except Exception as e: return ("failed", repr(e))
    def launch(self, cmd, env, cwd, note):
        "a process started afresh by this one, with a command of its own"
        self.n += 1
        addr = os.path.join(self.dir, "p%d" % self.n)
        e = dict(t="born", how="fresh", launch=note, **{"from": 1})
        with self.Listener(addr, "AF_UNIX") as l:
            l._listener._socket.settimeout(90)
            err = open(addr + ".err", "w+b")
            k = subprocess.Popen(cmd + [addr], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=cwd)
            self.kids.append(k)
            try:
                import select, time
                end = time.time() + 90
                while not select.select([l._listener._socket], [], [], .05)[0]:
                    if k.poll() is not None or time.time() > end: err.seek(0); raise OSError("ended with %s: %s" % (k.poll(), err.read().decode("utf-8", "replace")[-400:]))
                self.conns[self.n] = l.accept()
            except OSError as x: e["e"] = str(x)
            err.close()
        self.s.add(**e)
        return "e" not in e
    def make(self, R, parent, how):
        self.n += 1
        addr = os.path.join(self.dir, "p%d" % self.n)
        e = dict(t="born", how=how, **{"from": parent})
        if rec.np is None: e["nonp"] = 1
        with self.Listener(addr, "AF_UNIX") as l:
            l._listener._socket.settimeout(90)
            if parent != 1: r = self.tell(parent, (how, addr, R.randrange(1000)))
            elif how == "fork":
                pid = os.fork()
                if pid == 0:
                    try:
                        l.close()
                        for c in self.conns.values(): c.close()
                        worker_main(addr, False)
                    finally: os._exit(0)
                self.kids.append(pid); r = ("made",)
            else:
                self.kids.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", addr], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED=str(R.randrange(1000)))))
                r = ("made",)
            if r[0] == "made":
                try: self.conns[self.n] = l.accept()
                except OSError as x: r = ("failed", repr(x))
        if r[0] != "made": e["e"] = r[1]
        self.s.add(**e)
    def use(self, p, to):
        r = ("used",)
        if p == 1:
            _, x = guarded(getattr(rec.pysolar, "use_" + to), (), {})
            if x is not None: r = ("failed", repr(x))
        else: r = self.tell(p, ("use", to))
        e = dict(t="use", p=p, to=to)
        if r[0] != "used": e["e"] = r[1]
        self.s.add(**e)
    def ask(self, p, key, q, proto):
        e = dict(t="asked", p=p, key=key)
        if p == 1:
            with rec.warnings.catch_warnings():
                rec.warnings.simplefilter("ignore")
                r, x = guarded((lambda *a: list(q[0](*a))) if q[3] else q[0], q[1], q[2])
            r = ("answer", r if x is None else x, rec.MODS["numeric"].current_mod)
        else: r = self.tell(p, ("ask",) + q + (proto,))
        if r[0] == "failed": e["lost"] = r[1]
        else: e["val"] = seen(r[1]); e["cur"] = r[2]
        self.s.add(**e)
    def close(self):
        for c in self.conns.values(): c.close()
        for k in self.kids:
            if isinstance(k, int): os.waitpid(k, 0)
            else: k.wait()
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
WAYS = [("copy", copy.copy), ("deepcopy", copy.deepcopy)] + [("pickle%d" % n, lambda x, n=n: pickle.loads(pickle.dumps(x, n))) for n in range(pickle.HIGHEST_PROTOCOL + 1)]
def copied(s, what, x, show, ways=WAYS):
    before = show(x)
    for how, f in ways:
        r, err = guarded(f, (x,), {})
        e = dict(t="copied", what=what, how=how, before=before)
        if err is None: e["after"] = show(r)
        else: e["err"] = repr(err)
        s.add(**e)
def sendable(R, base, m, n, ks, arrays):
    "arguments of a public function that survive pickling by themselves"
    a = [every_value(R, k, base) for k in ks]
    for i, k in enumerate(ks):
        if arrays and k in "alLzo" and R.random() < .6: a[i] = rec.np.array([a[i], every_value(R, k, base)], dtype=float)
        if k == "w" and R.random() < .2 and (n not in ("datetime_range", "simulate_span")): a[i] = a[i].replace(tzinfo=None)      # to be refused
        if k in "lLeTPzuxa" and R.random() < .03: a[i] = R.choice(["1.5", None, [1, 2]])                                        # as well
    if n == "datetime_range": a[1] = a[0] + TD(minutes=100)
    if n == "simulate_span": a[4] = a[3] + TD(minutes=70)
    a = tuple(a)
    try: same = seen(pickle.loads(pickle.dumps(a))) == seen(a)
    except Exception: same = False
    return a if same else None
def questions(R, s, base, picks, fresh, modes):
    "questions by key; what the answers are under each backend is noted in the session"
    qs = {}
    for m, n, ks in picks:
        a = sendable(R, base, m, n, ks, rec.np is not None and R.random() < .25)
        if a is None: continue
        key = "%s#%d" % (n, len(qs))
        for mode in modes:
            with rec.warnings.catch_warnings():
                rec.warnings.simplefilter("ignore")
                f = getattr(fresh[mode][m], n)
                r, x = guarded((lambda *p: list(f(*p))) if m == "simulate" else f, a, {})
            s.add(t="memo", key=key + "@" + mode, val=seen(r if x is None else x), mut=False)
        f = getattr(rec.MODS[m], n)
        q = (f, a, {}, m == "simulate")
        if R.random() < .2 and a: q = (functools.partial(f, *a[:1]), a[1:], {}, m == "simulate")
        qs[key] = q
    return qs
def C34(c):
    R = c.R
    fresh = Fresh()
    every = [x for x in EVERY if x[0] != "constants"]
    public = sorted({(m, n) for m, n, _ in every} | {("simulate", "simulate_span"), ("simulate", "datetime_range"), ("numeric", "use_math"), ("numeric", "use_numpy"), ("constants", "get_aberration_coeffs"), ("solar", "get_coeff"), ("solar", "solar_test"), ("elevation", "elevation_test")})
    modes = ["numpy", "math"] if rec.np is not None else ["math"]
    refs = {mode: fresh.mods(mode) for mode in modes}
    # answers, errors and the functions themselves, copied
    for _ in range(c.share(20, 400)):
        s = c.rec()
        t = gen.modern(R)
        base = dict(w=gen.some_tz(R, t), l=R.uniform(-60, 60), L=R.uniform(-180, 180))
        for m, n, ks in R.sample(every, 8):
            a = sendable(R, base, m, n, ks, s.mode == "numpy" and R.random() < .3)
            if a is None: continue
            f = getattr(rec.MODS[m], n)
            with rec.warnings.catch_warnings():
                rec.warnings.simplefilter("ignore")
                r, x = guarded((lambda *p: list(f(*p))) if m == "simulate" else f, a, {})
            copied(s, n, r if x is None else x, seen)
            if x is not None and R.random() < .5:
                # a copy of a copy, and one that was raised
                y = WAYS[R.randrange(len(WAYS))]
                z, err = guarded(y[1], (x,), {})
                if err is None: copied(s, n, z, seen)
        for m, n in R.sample(public, 10):
            f = getattr(rec.MODS[m], n)
            copied(s, n, f, lambda x: "%s.%s itself" % (m, n) if x is f else repr(type(x)))
        c.emit(s)
    # questions sent to other processes
    words = c.mine(c.words("Pool"))
    words = R.sample(words, min(len(words), 10 if c.quick else 150))
    for w in words:
        w, end = w.split("|")
        s = c.rec("numpy" if rec.np is not None else "math")
        t = gen.modern(R)
        base = dict(w=gen.some_tz(R, t), l=R.uniform(-60, 60), L=R.uniform(-180, 180))
        qs = questions(R, s, base, R.sample(every, 11) + [("solar", "get_altitude", ("l", "L", "w"))], refs, modes)
        pool = Pool(s)
        try:
            for tok in w.split(","):
                p = int(tok[1])
                if tok[0] in "fs": pool.make(R, p, "fork" if tok[0] == "f" else "fresh")
                else: pool.use(p, "math" if tok[0] == "M" else "numpy")
                for p in R.sample(range(1, pool.n + 1), pool.n):
                    for key in R.sample(sorted(qs), min(len(qs), 2)): pool.ask(p, key, qs[key], R.randrange(pickle.HIGHEST_PROTOCOL + 1))
            for p in range(1, pool.n + 1):
                for key in qs: pool.ask(p, key, qs[key], None)
        finally: pool.close()
        if rec.MODS["numeric"].current_mod != "numpy" and rec.np is not None: rec.pysolar.use_numpy()
        c.emit(s)

# --- C35 ------------------------------------------------------------------------------------------------------------
PUBLISHED = {"constants": ["earth_radius", "earth_axis_inclination", "seconds_per_day", "standard_pressure", "standard_temperature", "celsius_offset", "earth_temperature_lapse_rate", "air_gas_constant", "earth_gravity", "earth_atmosphere_molar_mass",
                           "heliocentric_longitude_coeffs", "heliocentric_latitude_coeffs", "sun_earth_distance_coeffs", "aberration_sin_terms", "nutation_coefficients"],
             "util": ["AM_default", "TL_default", "SC_default", "TY_default", "elevation_default"], "stime": ["leap_seconds_base_year", "leap_seconds_adjustments", "delta_t_base_year", "delta_t_base_month", "delta_t"]}
def publish(s, mods, mod, name):
    e = dict(t="published", mod={"stime": "solartime"}.get(mod, mod), name=name)
    if hasattr(mods[mod], name): e["v"] = enc(getattr(mods[mod], name))
    s.add(**e)
def a_table(R):
    "a table for get_coeff"
    k = R.randrange(8)
    if k == 0: return R.choice([[], [[]], [[], [[1, 0, 0]]], [[(2, 0.0, 0.0)]], [[(1.5, 3.0, 0.0)], [], [(0.25, 1.0, 2.0)]]])
    if k == 1:                      # parts of the published ones
        t = getattr(rec.MODS["constants"], R.choice(["heliocentric_longitude_coeffs", "heliocentric_latitude_coeffs", "sun_earth_distance_coeffs"]))
        return [list(R.sample(list(g), R.randrange(len(g) + 1))) for g in t[:R.randrange(1, len(t) + 1)]]
    if k == 2: return getattr(rec.MODS["constants"], R.choice(["heliocentric_longitude_coeffs", "heliocentric_latitude_coeffs", "sun_earth_distance_coeffs"]))
    num = lambda top: R.choice([R.uniform(-top, top), R.uniform(-1, 1), R.randrange(-9, 10), 0, 0.0])
    row = R.choice([tuple, list])
    t = [[row((num(1e6), num(7), num(R.choice([1, 100, 10000])))) for _ in range(R.choice([0, 1, 1, 2, 5, 20]))] for _ in range(R.choice([1, 1, 2, 3, 7, 9]))]
    return R.choice([list, tuple])(t)
def C35(c):
    R = c.R
    fresh = Fresh()
    names = [(m, n) for m in PUBLISHED for n in PUBLISHED[m]]
    for k in range(c.share(16, 64)):
        s = c.rec()
        mods = fresh.mods(s.mode) if k % 2 else rec.MODS
        for m, n in names: publish(s, mods, m, n)
        t = gen.modern(R)
        base = dict(w=gen.some_tz(R, t), l=R.uniform(-60, 60), L=R.uniform(-180, 180))
        for m, n, ks in R.sample(EVERY, 12):                 # they are the same after use
            ask(mods, (m, n, tuple(every_value(R, x, base) for x in ks)))
        for m, n in R.sample(names, 12): publish(s, mods, m, n)
        c.emit(s)
    for ch in chunks(range(c.share(400, 8000)), 8):
        s = c.rec()
        for _ in ch:
            t = a_table(R)
            x = R.choice([0, 0.0, 1, -1, R.uniform(-.1, .1), R.uniform(-1, 1), R.uniform(-4, 8)])
            b = exact(t)
            style = R.randrange(3)
            r, err = guarded(rec.MODS["solar"].get_coeff, (x, t)[:2 - style], dict([("coeffs", t), ("jme", x)][:style]))
            s.add(t="series", x=limbs(x), table=[[[limbs(v) for v in l] for l in g] for g in t], r=enc(r) if err is None else enc_exc(err), mut=exact(t) != b)
            x = R.choice([0, 0.0, 1, R.uniform(-1, 1), R.uniform(-20, 80), R.uniform(-.3, .3)])
            e = dict(t="polynomials", x=limbs(x))
            p, err = guarded(rec.MODS["constants"].get_aberration_coeffs, (), {})
            if err is None:
                p, err = guarded(lambda: [[n, enc(f(x))] for n, f in p.items()], (), {})
            if err is None: e["at"] = p
            else: e["e"] = repr(err)
            s.add(**e)
        c.emit(s)

# --- C36 ------------------------------------------------------------------------------------------------------------
EAGER = ["constants", "solartime", "radiation", "util", "solar"]
class Piecewise:
    "the package imported bit by bit"
    def __init__(self, s):
        self.s, self.ns = s, {}
        self.old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "pysolar" or k.startswith("pysolar.")}
    def cur(self): return getattr(sys.modules.get("pysolar.numeric"), "current_mod", "?")
    def imp(self, R, m):
        import importlib
        how = R.choice(["module", "import", "from", "star", "attribute", "level"]) if m != "pysolar" else R.choice(["import", "star", "module"])
        full = "pysolar" if m == "pysolar" else "pysolar." + m
        ns = {}
        def go():
            if how == "module": return importlib.import_module(full)
            if how == "import": exec("import %s as m" % full, ns); return ns["m"]
            if how == "from": exec("from pysolar import %s as m" % m, ns); return ns["m"]
            if how == "star": exec("from %s import *" % full, ns); return types.SimpleNamespace(**{k: v for k, v in ns.items() if not k.startswith("__")})
            if how == "level": exec("from . import %s as m" % m, dict(ns, __package__="pysolar", __name__="pysolar.test"), ns); return ns["m"]
            exec("import %s" % full, ns); return getattr(ns["pysolar"], m)
        r, x = guarded(go, (), {})
        e = dict(t="imported", mod=m, how=how)
        if x is not None: e["e"] = repr(x)
        else:
            e["cur"] = self.cur()
            self.ns[m] = r
            if m == "pysolar":
                for k in EAGER: self.ns.setdefault(k, getattr(r, {"solartime": "stime"}.get(k, k), None))
        self.s.add(**e)
    def again(self, m):
        import importlib
        mod = sys.modules.get("pysolar." + m) if m != "pysolar" else sys.modules.get(m)
        if mod is None: return
        _, x = guarded(lambda: importlib.reload(mod), (), {})
        e = dict(t="imported", mod=m, how="again")
        if x is not None: e["e"] = repr(x)
        else: e["cur"] = self.cur()
        self.s.add(**e)
    def use(self, R, to):
        f = R.choice([lambda: sys.modules["pysolar"], lambda: sys.modules["pysolar.numeric"]])
        _, x = guarded(lambda: getattr(f(), "use_" + to)(), (), {})
        e = dict(t="use", p=1, to=to)
        if x is not None: e["e"] = repr(x)
        self.s.add(**e)
    def ask(self, key, m, n, a):
        f = getattr(self.ns[m], n, None)
        with rec.warnings.catch_warnings():
            rec.warnings.simplefilter("ignore")
            r, x = guarded((lambda *p: list(f(*p))) if m == "simulate" else f, a, {})
        self.s.add(t="asked", p=1, key=key, val=seen(r if x is None else x), cur=self.cur())
    def close(self):
        for k in list(sys.modules):
            if k == "pysolar" or k.startswith("pysolar."): del sys.modules[k]
        sys.modules.update(self.old)
def C36(c):
    R = c.R
    fresh = Fresh()
    every = [x for x in EVERY if x[0] != "constants"]
    by = {}
    for x in every: by.setdefault({"stime": "solartime"}.get(x[0], x[0]), []).append(x)
    modes = ["numpy", "math"] if rec.np is not None else ["math"]
    refs = {mode: fresh.mods(mode) for mode in modes}
    words = c.mine(c.words("Imports"))
    words = R.sample(words, min(len(words), 25 if c.quick else 700))
    for w in words:
        s = c.rec(modes[0])
        t = gen.modern(R)
        base = dict(w=gen.some_tz(R, t), l=R.uniform(-60, 60), L=R.uniform(-180, 180))
        qs = {}
        for m in by:
            for m0, n, ks in R.sample(by[m], min(3, len(by[m]))):
                a = sendable(R, base, m0, n, ks, rec.np is not None and R.random() < .25)
                if a is None: continue
                key = "%s#%d" % (n, len(qs))
                for mode in modes:
                    with rec.warnings.catch_warnings():
                        rec.warnings.simplefilter("ignore")
                        f = getattr(refs[mode][m0], n)
                        r, x = guarded((lambda *p: list(f(*p))) if m0 == "simulate" else f, a, {})
                    s.add(t="memo", key=key + "@" + mode, val=seen(r if x is None else x), mut=False)
                qs[key] = (m, n, a)
        p = Piecewise(s)
        try:
            toks = w.split(",")
            for k, tok in enumerate(toks):
                if tok[:2] == "i:": p.imp(R, R.choice(EAGER + ["pysolar", "numeric", "tzinfo_check"]) if tok == "i:eager" else tok[2:])
                elif tok[:2] == "r:": p.again(R.choice(EAGER + ["tzinfo_check", "pysolar", "pysolar"]) if tok == "r:eager" else tok[2:])
                elif tok == "M" or rec.np is not None: p.use(R, "math" if tok == "M" else "numpy")
                may = [key for key in qs if p.ns.get(qs[key][0]) is not None]
                for key in (R.sample(may, min(len(may), 3)) if k + 1 < len(toks) else may): p.ask(key, *qs[key])
            for m in by:                                        # the rest of them in the end
                if m not in p.ns: p.imp(R, m)
            for key in qs:
                if p.ns.get(qs[key][0]) is not None: p.ask(key, *qs[key])
        finally: p.close()
        c.emit(s)

# --- C37 ------------------------------------------------------------------------------------------------------------
def places(dir):
    "the package in other forms; where to import it from"
    import shutil, zipfile, compileall
    out = {"dir": rec.REPO}
    src = os.path.join(os.path.realpath(rec.REPO), "pysolar")
    keep = lambda d, names: [n for n in names if n == "__pycache__"]
    z = os.path.join(dir, "package.zip")
    with zipfile.ZipFile(z, "w") as f:
        for r, ds, fs in os.walk(src):
            ds[:] = [d for d in ds if d != "__pycache__"]
            for n in fs: f.write(os.path.join(r, n), os.path.join("pysolar", os.path.relpath(os.path.join(r, n), src)))
    out["zip"] = z
    out["accents"] = os.path.join(dir, "Sonnenhöhe über 0°")
    shutil.copytree(src, os.path.join(out["accents"], "pysolar"), ignore=keep)
    out["compiled"] = os.path.join(dir, "compiled")
    t = os.path.join(out["compiled"], "pysolar")
    shutil.copytree(src, t, ignore=keep)
    compileall.compile_dir(t, quiet=2, legacy=True, optimize=2, invalidation_mode=None)
    for r, ds, fs in os.walk(t):
        for n in fs:
            if n.endswith(".py") and os.path.exists(os.path.join(r, n + "c")): os.unlink(os.path.join(r, n))
    out["link"] = os.path.join(dir, "link")
    os.symlink(rec.REPO, out["link"])
    return out
def C37(c):
    import shutil
    R = c.R
    fresh = Fresh()
    every = [x for x in EVERY if x[0] != "constants"]
    modes = ["numpy", "math"] if rec.np is not None else ["math"]
    refs = {mode: fresh.mods(mode) for mode in modes}
    scratch = tempfile.mkdtemp(prefix="vlaunch")
    try:
        where = places(scratch)
        words = c.mine(c.words("Launch"))
        words = R.sample(words, min(len(words), 15 if c.quick else 400))
        for w in words:
            opt, warn, iso, place, streams, environ, cwd = w.split(",")
            s = c.rec(modes[0])
            base = dict(w=gen.some_tz(R, gen.modern(R)), l=R.uniform(-60, 60), L=R.uniform(-180, 180))
            qs = questions(R, s, base, R.sample(every, 14) + [("solar", "get_altitude", ("l", "L", "w")), ("solar", "get_position", ("l", "L", "w"))], refs, modes)
            cmd = [sys.executable] + (["-" + opt] if opt != "-" else []) + {"-": [], "error": ["-W", "error"], "always": ["-W", "always", "-bb"]}[warn] + (["-" + iso] if iso != "-" else []) + [os.path.abspath(__file__), "--worker"]
            env = {"full": dict(os.environ, TZ=R.choice(["UTC", "Asia/Tokyo", "America/St_Johns", "Nowhere/Land", ""]), PYTHONHASHSEED=str(R.randrange(1000))), "empty": {},
                   "C": dict(os.environ, LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"), "dev": dict(os.environ, PYTHONDEVMODE="1", PYTHONOPTIMIZE="0", PYTHONUNBUFFERED="1", PYTHONINSPECT="")}[environ]
            env["VERIF_REPO"] = where[place]
            env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "none")
            d = scratch if cwd == "here" else "/"
            pre = []
            if cwd == "gone":
                d = tempfile.mkdtemp(dir=scratch)
                pre = ["rmdir '%s'" % d]
            if streams == "closed": pre += ["exec <&- >&-"]
            if pre: cmd = ["/bin/sh", "-c", "; ".join(pre) + '; exec "$@"', "sh"] + cmd
            pool = Pool(s)
            try:
                if pool.launch(cmd, env, d, w):
                    ks = sorted(qs)
                    for key in R.sample(ks, len(ks)): pool.ask(2, key, qs[key], None)
                    pool.use(2, "math")
                    for key in R.sample(ks, len(ks)): pool.ask(2, key, qs[key], None)
            finally: pool.close()
            c.emit(s)
    finally: shutil.rmtree(scratch, ignore_errors=True)

# ---------------------------------------------------------------------------------------------------------------------
def main():
    if sys.argv[1] == "--worker": return worker_main(sys.argv[2])
    if sys.argv[1] == "--import": return import_main(sys.argv[2])
    if sys.argv[1] == "--demo": return demo_main(*sys.argv[2:4])
    if sys.argv[1] == "--pool": return pool_main(*sys.argv[2:4])
    prop, part, nparts, tier, seed, out, scn = sys.argv[1:8]
    c = Ctx(prop, int(part), int(nparts), tier, int(seed), out, json.loads(scn))
    if prop == "C27":
        import threads
        threads.drive(c)
    else:
        rec.load()
        globals()[prop](c)
    c.f.close()
    print("sessions", c.n)
if __name__ == "__main__": main()
