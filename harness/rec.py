"""Runs calls of the real code and records them as events for the specification (spec/Trace.tla)."""
import os, sys, json, datetime, warnings, signal, math
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
if os.environ.get("VERIF_NO_NUMPY"):
    sys.modules["numpy"] = None
    np = None
else:
    try:
        import numpy as np
    except ImportError:
        np = None

class Hang(BaseException): pass
def _alarm(*a): raise Hang("call did not return")
CALL_LIMIT = 30

def limbs(x):
    "exact number -> <<sign, limbs...>> of spec/Fx.tla (10^-24 fixed point, nearest)"
    n, d = x.as_integer_ratio() if not isinstance(x, int) else (x, 1)
    s = -1 if n < 0 else 1
    v = (abs(n) * 10**24 * 2 + d) // (2 * d)
    if v == 0: return [0]
    out = [s]
    while v:
        v, r = divmod(v, 10000)
        out.append(r)
    return out

def enc_dt(d):
    off = d.utcoffset()
    if off is None: off = datetime.timedelta(0)
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, off.days * 86400 + off.seconds, off.microseconds]

EPOCH = datetime.datetime(1970, 1, 1)
def enc(x):
    if np is not None and isinstance(x, np.ndarray):
        if x.ndim == 0:
            r = enc(x[()])
            if "k" in r: r["k"] = "ndarray"
            return r
        return {"arr": {"sh": list(x.shape), "v": [enc(v) for v in x.ravel()]}}
    if np is not None and isinstance(x, np.datetime64):
        return {"dt": enc_dt(x.astype("datetime64[us]").item())}
    if isinstance(x, bool) or (np is not None and isinstance(x, np.bool_)):
        return {"n": limbs(int(x)), "k": type(x).__name__}
    if isinstance(x, int): return {"n": limbs(x), "k": "int"}
    if isinstance(x, float) or (np is not None and isinstance(x, (np.floating, np.integer))):
        k = type(x).__name__
        y = float(x) if not (np is not None and isinstance(x, np.integer)) else int(x)
        if isinstance(y, float):
            if math.isnan(y): return {"nan": 1}
            if math.isinf(y): return {"inf": 1 if y > 0 else -1}
            if abs(y) > 1e260: return {"huge": 1}
        return {"n": limbs(y), "k": k}
    if isinstance(x, datetime.datetime): return {"dt": enc_dt(x)}
    if isinstance(x, (tuple, list)): return {"tup": [enc(v) for v in x]}
    if isinstance(x, dict) and set(x) == {"longitude", "obliquity"}:
        return {"nut": [enc(x["longitude"]), enc(x["obliquity"])]}
    if x is None: return {"none": 1}
    if isinstance(x, str): return {"s": x}
    return {"other": type(x).__name__}

def enc_arg(x):
    "arguments: numbers without class, nutations as two numbers"
    if isinstance(x, dict) and set(x) == {"longitude", "obliquity"}:
        return {"nut": [limbs(x["longitude"]), limbs(x["obliquity"])]}
    r = enc(x)
    if "k" in r: r = {"n": r["n"]}
    return r

def own(x):
    return x.copy() if np is not None and isinstance(x, np.ndarray) else {n: own(y) for n, y in x.items()} if isinstance(x, dict) else [own(y) for y in x] if isinstance(x, list) else x
def unchanged(a, b):
    if np is not None and isinstance(a, np.ndarray): return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, dict): return list(a) == list(b) and all(unchanged(a[n], b[n]) for n in a)
    if isinstance(a, list): return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    return a is b or a == b or a != a
def enc_exc(e):
    return {"e": [c.__name__ for c in type(e).__mro__]}

def load():
    global pysolar, MODS
    import pysolar
    from pysolar import solar, solartime, util, radiation, elevation, rest, simulate, constants, numeric
    MODS = dict(solar=solar, stime=solartime, util=util, radiation=radiation, elevation=elevation, rest=rest, simulate=simulate, constants=constants, numeric=numeric)
    return pysolar

ORDER = ["solar", "stime", "util", "radiation", "elevation", "rest"]
OPMOD = {"get_radiation_direct": "radiation", "get_air_mass_ratio": "radiation", "get_apparent_extraterrestrial_flux": "radiation", "get_optical_depth": "radiation",
         "get_pressure_with_elevation": "elevation", "get_temperature_with_elevation": "elevation"}
_FN = {}
def fn(op):
    if op not in _FN:
        if op in OPMOD: m = OPMOD[op]
        else: m = next(m for m in ORDER if hasattr(MODS[m], op) and getattr(getattr(MODS[m], op), "__module__", "").startswith("pysolar"))
        _FN[op] = getattr(MODS[m], op)
    return _FN[op]

def guarded(f, p, k):
    signal.setitimer(signal.ITIMER_REAL, CALL_LIMIT)
    try:
        return f(*p, **k), None
    except Hang as e:
        return None, RuntimeError("hang")
    except Exception as e:
        return None, e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

signal.signal(signal.SIGALRM, _alarm)

def rise_enc(res, when):
    "datetimes of sunrise functions: also the offset of the caller's timezone at that instant"
    def one(d):
        if not isinstance(d, datetime.datetime) or d.tzinfo is None: return enc(d) if not isinstance(d, datetime.datetime) else {"naive": 1}
        o = d.astimezone(when.tzinfo).utcoffset()
        return {"dt": enc_dt(d), "off": [o.days * 86400 + o.seconds, o.microseconds]}
    if isinstance(res, tuple): return {"tup": [one(d) for d in res]}
    return one(res)

RISE = {"get_sunrise_sunset_transit", "get_sunrise_sunset", "get_sunrise_time", "get_sunset_time", "get_transit_time"}
WARN = {"get_leap_seconds", "get_pressure_with_elevation"}

class Rec:
    "a session"
    def __init__(self, sid, mode=None):
        self.id, self.mode, self.ev = sid, mode or MODS["numeric"].current_mod, []
    def call(self, op, *p, **k):
        e = {"t": "call", "op": op, "p": [enc_arg(x) for x in p]}
        if k: e["k"] = {n: enc_arg(v) for n, v in k.items()}
        if np is not None and any(isinstance(y, np.generic) for x in list(p) + list(k.values()) for y in (x.values() if isinstance(x, dict) else [x])): e["npin"] = 1
        keep = [(x, own(x)) for x in list(p) + list(k.values()) if isinstance(x, (dict, list)) or np is not None and isinstance(x, np.ndarray)]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r, x = guarded(fn(op), p, k)
        if any(not unchanged(a, b) for a, b in keep): e["mut"] = 1
        if op in WARN: e["w"] = len([a for a in w if issubclass(a.category, UserWarning)])
        if x is not None: e["r"] = enc_exc(x)
        elif op in RISE:
            when = k.get("when", p[2] if len(p) > 2 else None)
            e["r"] = rise_enc(r, when)
        else: e["r"] = enc(r)
        self.ev.append(e)
        return r if x is None else x
    def same(self, op, one, other):
        "the same call put in two ways"
        n = len(self.ev)
        self.call(op, *one[0], **one[1]); self.call(op, *other[0], **other[1])
        a, b = self.ev[n:]
        self.ev[n:] = [{"t": "same", "a": a, "b": b}]
    def refused(self, exc, f, *p, blame=None, **k):
        "blame: (parameter, value) which the exception has to name, if it names any"
        r, x = guarded(f, p, k)
        self.ev.append({"t": "refused", "exc": exc, "r": enc(r) if x is None else enc_exc(x), "what": getattr(f, "__name__", "?")})
        if hasattr(x, "argname"): self.ev[-1]["blamed"] = blame is not None and x.argname == blame[0] and getattr(x, "dt", None) is blame[1] and x.argname in str(x)
    def switch(self, to):
        e = {"t": "switch", "to": to}
        r, x = guarded(getattr(pysolar, "use_" + to), (), {})
        if x is not None: e["e"] = type(x).__name__
        e["cur"] = getattr(MODS["numeric"], "current_mod", "?")
        if np is None: e["nonp"] = 1
        self.ev.append(e)
    def add(self, **e): self.ev.append(e)
    def json(self): return {"id": self.id, "mode": self.mode, "ev": self.ev}

def write(path, sessions):
    with open(path, "w") as f:
        json.dump({"sessions": [s.json() if isinstance(s, Rec) else s for s in sessions]}, f, separators=(",", ":"))
