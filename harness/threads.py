"""Drives the real code along chosen interleavings of threads (C27).

Each thread runs under a trace function; every line executed in pysolar (every bytecode instruction in the
modules small enough to afford it) is a point where the scheduler may stop it and let another thread go on.
A thread that makes no step although it is its turn (it waits for a lock another one holds) loses its turn.
"""
import sys, os, threading, random, tempfile, warnings, time
import rec, gen, sigs
from gen import D, TD, UTC
from rec import Rec

def fresh(mode):
    "first use: the package as after a new import"
    for m in [m for m in sys.modules if m == "pysolar" or m.startswith("pysolar.")]: del sys.modules[m]
    rec._FN.clear()
    rec.load()
    if rec.MODS["numeric"].current_mod != mode: getattr(rec.pysolar, "use_" + mode)()

PKG = os.path.join(os.path.realpath(rec.REPO), "pysolar") + os.sep
OPCODE_FILES = ("constants.py", "tzinfo_check.py")
_ours = {}
def ours(fn):
    r = _ours.get(fn)
    if r is None: r = _ours[fn] = os.path.realpath(fn).startswith(PKG)
    return r

class Sched:
    def __init__(self, jobs, plan, where=None, fine=False):
        """plan: function(thread index) -> iterator of (thread, steps) turns; jobs: callables"""
        self.jobs, self.plan = jobs, list(plan)
        self.n = len(jobs)
        self.turn = [threading.Event() for _ in jobs]
        self.back = threading.Event()
        self.left = 0
        self.cur = None
        self.steps = [0] * self.n
        self.done = [False] * self.n
        self.res = [None] * self.n
        self.where = where          # thread 0's trace of positions, if wanted
        self.lock = threading.Lock()
        self.fine = fine
    def tick(self, i, frame):
        self.steps[i] += 1
        if self.where is not None and i == 0: self.where.append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti) if self.fine else (frame.f_code.co_filename, frame.f_lineno))
        while True:
            if self.cur != i:
                self.turn[i].wait(); self.turn[i].clear(); continue
            if self.left > 0:
                self.left -= 1; return
            self.cur = None
            self.back.set()
    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line" and not frame.f_trace_opcodes or event == "opcode": self.tick(i, frame)
            return local
        def glob(frame, event, arg):
            if event != "call" or not ours(frame.f_code.co_filename): return None
            if self.fine or frame.f_code.co_filename.endswith(OPCODE_FILES): frame.f_trace_opcodes = True
            return local
        return glob
    def body(self, i):
        self.turn[i].wait(); self.turn[i].clear()
        sys.settrace(self.tracer(i))
        try: r = self.jobs[i]()
        except BaseException as e: r = "!" + type(e).__name__
        finally: sys.settrace(None)
        self.res[i] = r
        self.done[i] = True
        if self.cur == i or self.cur is None:
            self.cur = None
            self.back.set()
    def run(self, limit=60):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts: t.start()
        end = time.time() + limit
        turns = iter(self.plan)
        blocked = set()
        while not all(self.done):
            if time.time() > end: break
            i, k = next(turns, (None, None))
            if i is None:       # the plan is used up: let the rest finish one by one
                rest = [j for j in range(self.n) if not self.done[j] and j not in blocked] or [j for j in range(self.n) if not self.done[j]]
                blocked.clear() if not [j for j in rest if j not in blocked] else None
                i, k = rest[0], 10**9
            if self.done[i]: continue
            self.left, self.cur = k, i
            self.back.clear()
            self.turn[i].set()
            last, since = self.steps[i], time.time()
            while not self.back.wait(.02):
                if self.steps[i] != last: last, since = self.steps[i], time.time()
                elif time.time() - since > .25:      # waits for something: someone else's turn
                    blocked.add(i); self.cur = None; break
                if self.done[i] or time.time() > end: break
        return [r if d else "!hang" for r, d in zip(self.res, self.done)]

def exact(r):
    import drive
    return drive.exact(r)

def quiet():
    "warnings are let through, and shown nowhere: a filter that a call leaves behind shows"
    warnings.resetwarnings(); warnings.simplefilter("default")
    warnings.showwarning = hush
def hush(*a, **k): pass
def settings():
    "what all threads share and no call may leave changed"
    import locale
    W = warnings
    x = [W.filters, id(W.showwarning), id(W.warn), sorted(os.environ.items()), os.getcwd(), sys.path, time.tzname, locale.setlocale(locale.LC_ALL, None), sys.getrecursionlimit(), sys.getswitchinterval(), id(sys.stdout), id(sys.stderr), id(sys.excepthook), random.getstate()]
    if rec.np is not None: x += [sorted(rec.np.geterr().items()), sorted((k, str(v)) for k, v in rec.np.get_printoptions().items())]
    return [repr(v) for v in x]

def job_specs(R):
    "the work of one thread: a list of (op, args)"
    t = gen.instant(R, "tables"); lat, lon = R.uniform(-60, 60), R.uniform(-180, 180)
    w = gen.some_tz(R, t, ["utc", "fixed-whole", "fixed-half", "fixed-seconds"])
    el, te, pr = R.uniform(0, 3000), R.uniform(250, 310), R.uniform(70000, 105000)
    return {"pos": [("get_position", (lat, lon, w, el, te, pr))],
            "altaz": [("get_altitude", (lat, lon, w, el)), ("get_azimuth", (lat, lon, w))],
            "topo": [("get_topocentric_position", (lat, lon, w, el))],
            "fast": [("get_azimuth_fast", (lat, lon, w)), ("get_altitude_fast", (lat, lon, w)), ("get_radiation_direct", (w, R.uniform(1, 80)))],
            "rise": [("get_sunrise_sunset_transit", (lat, lon, w)), ("get_transit_time", (lat, lon, w))],
            "sky": [("global_irradiance_clear", (lat, lon, w, 365, 2.0, 1.5, el, te, pr))],
            "times": [("get_julian_solar_day", (w,)), ("get_delta_t", (w,)), ("get_leap_seconds", (w,)), ("get_julian_ephemeris_day", (w,))],
            "places": [("get_hour_angle", (w, lon)), ("get_solar_time", (lon, w)), ("declination_degree", (w,)), ("mean_earth_sun_distance", (w,)), ("extraterrestrial_irrad", (lat, lon, w))],
            "diffuse": [("diffuse_underclear", (lat, lon, w, el)), ("diffuse_underovercast", (lat, lon, w, el)), ("solarelevation_function_clear", (lat, lon, w))],
            "air": [("get_pressure_with_elevation", (el,)), ("get_temperature_with_elevation", (el,)), ("get_refraction_correction", (pr, te, R.uniform(0, 80))), ("get_air_mass_ratio", (R.uniform(2, 80),)), ("get_optical_depth", (R.randrange(1, 366),)), ("get_apparent_extraterrestrial_flux", (R.randrange(1, 366),))],
            "series": [("get_nutation", (R.uniform(-1, 1),)), ("get_heliocentric_latitude", (R.uniform(-.1, .1),)), ("get_sun_earth_distance", (R.uniform(-.1, .1),))],
            "rest": [("get_beam_irradiance_by_band", (R.choice(["high-frequency", "low-frequency"]), R.uniform(10, 80)) + rest_air(R)), ("get_sky_albedo", ("high-frequency", R.uniform(.8, 2), R.uniform(.01, .3)))],
            "sim": [("*", (R.uniform(-60, 60), lon, [R.uniform(0, 3)] * 361, t, t + TD(minutes=50), 20, el))]}
def rest_air(R): return (R.uniform(700, 1060), R.uniform(.2, .5), R.uniform(.0001, .01), R.uniform(.5, 6), R.uniform(.8, 2), R.uniform(.01, .3))
SMALL = ["fast", "rise", "times", "places", "diffuse", "air", "series", "rest", "sim"]
def ask(op, a):
    if op == "*": return [exact(x) for x in rec.MODS["simulate"].simulate_span(*a)]
    return exact(rec.fn(op)(*a))
FIRST = ["pos", "altaz", "topo", "sky"]

def bind(job):
    def go():
        return [ask(op, a) for op, a in job]
    return go

def drive(c):
    R = c.R
    quiet()
    tmp = tempfile.mkdtemp(prefix="vthreads")
    sys.pycache_prefix = tmp
    sys.dont_write_bytecode = False
    try: _drive(c, R)
    finally:
        import shutil; shutil.rmtree(tmp, ignore_errors=True)

def _drive(c, R):
    schedules = 0
    def reference(job, mode):
        fresh(mode)
        s = Rec(0, mode)
        out = []
        for op, a in job:
            if op == "*": out.append(ask(op, a)); continue
            r = s.call(op, *a)
            out.append(exact(r))
        c.emit(s)
        return out
    def alone(job, mode):
        fresh(mode)
        where = []
        sc = Sched([bind(job)], [(0, 10**9)], where)
        r = sc.run()
        return r[0], where
    def schedule(jobs, refs, plan, mode, note, before=None, fine=False):
        nonlocal schedules
        fresh(mode)
        if before is not None: bind(before)()
        was = settings()
        got = Sched([bind(j) for j in jobs], plan, None, fine).run()
        now = settings()
        after = [] if "!hang" in got else [bind(j)() for j in jobs]
        schedules += 1
        s = Rec(0, mode)
        for i, r in enumerate(refs): s.add(t="memo", key=str(i), val=repr(r), mut=False)
        for i, r in enumerate(got): s.add(t="memo", key=str(i), val=repr(r), mut=False)
        s.ev[-1]["note"] = note
        if "!hang" not in got:
            for x in (was, now): s.add(t="memo", key="settings", val=str([i for i, (p, q) in enumerate(zip(was, x)) if p != q]), mut=False)
        if was != now:
            quiet()
        for i, r in enumerate(after): s.add(t="memo", key=str(i), val=repr(r), mut=False)
        c.emit(s)
        return "!hang" not in got
    for rnd in range(1 if c.quick else 12):
        mode = R.choice(["math", "math", "numpy"]) if rec.np is not None else "math"
        if c.part % 4 == 3 and rec.np is not None: mode = "numpy"
        pool = [job_specs(R), job_specs(R), job_specs(R)]
        pairs = [("pos", "pos")] + [(R.choice(FIRST), R.choice(FIRST)) for _ in range(2)] + [(R.choice(list(pool[0])), R.choice(list(pool[1]))) for _ in range(2)]
        for n, (ka, kb) in enumerate(pairs):
            jobs = [pool[0][ka], pool[1][kb]]
            refs = [reference(j, mode) for j in jobs]
            ra, wa = alone(jobs[0], mode); rb, wb = alone(jobs[1], mode)
            s = Rec(0, mode)
            for i, (r, x) in enumerate(zip(refs, (ra, rb))):
                s.add(t="memo", key=str(i), val=repr(r), mut=False); s.add(t="memo", key=str(i), val=repr(x), mut=False)
            c.emit(s)
            # one preemption: the first and second time, and the last, each place in the code is passed; all parts together pass all of them
            seen, points = {}, set()
            for k, p in enumerate(wa):
                seen.setdefault(p, []).append(k)
            for p, ks in seen.items(): points |= {ks[0], ks[min(1, len(ks) - 1)], ks[-1], R.choice(ks)}
            points = sorted(points)
            # the part of all places that this process takes
            if n == 0:
                rr = random.Random("%s/%d" % (c.seed, rnd)); rr.shuffle(points)
                mine = points[c.part::c.nparts]
            else: mine = R.sample(points, min(len(points), 10 if c.quick else 60))
            if not c.quick and n == 0 and rnd < 3: mine = range(c.part, len(wa), c.nparts)     # every single one
            for k in mine:
                if not schedule(jobs, refs, [(0, k), (1, 10**9), (0, 10**9)], mode, "%s:%d" % wa[k] if k < len(wa) else ""): return
            # two preemptions
            for _ in range(8 if c.quick else 60):
                a, b = R.choice(points), R.randrange(max(1, len(wb)))
                if not schedule(jobs, refs, [(0, a), (1, b), (0, 10**9), (1, 10**9)], mode, "two"): return
            # the words of the specification
            words = c.words("Schedules2")
            for w in R.sample(words, min(len(words), 8 if c.quick else 40)):
                q = {0: len(wa) // 6 + 1, 1: len(wb) // 6 + 1}
                plan = [("ab".index(ch), q["ab".index(ch)]) for ch in w]
                if not schedule(jobs, refs, plan, mode, w): return
        # every function, first used by both at once or used before: the first, second and last time each place is passed
        for kind in SMALL + (FIRST if not c.quick else []):
            jobs = [pool[0][kind], pool[1][kind]]
            refs = [reference(j, mode) for j in jobs]
            for before, fine in ((None, False), (pool[2][kind], False)) if c.quick else ((None, False), (None, True), (pool[2][kind], True)):
                fresh(mode)
                if before is not None: bind(before)()
                wa = []
                Sched([bind(jobs[0])], [(0, 10**9)], wa, fine).run()
                wb, same = [], {}
                fresh(mode)
                if before is not None: bind(before)()
                Sched([bind(jobs[1])], [(0, 10**9)], wb, fine).run()
                for k, p in enumerate(wb): same.setdefault(p, []).append(k)
                seen = {}
                for k, p in enumerate(wa): seen.setdefault(p, []).append(k)
                points = sorted({k for ks in seen.values() for k in (ks[0], ks[min(1, len(ks) - 1)], ks[-1])})
                random.Random("%s/%d/%s" % (c.seed, rnd, kind)).shuffle(points)
                for k in points[c.part::c.nparts]:
                    if not schedule(jobs, refs, [(0, k), (1, 10**9), (0, 10**9)], mode, "%s:%d" % wa[k][:2], before, fine): return
                    # both inside at once, the first to come in the first to leave
                    if not schedule(jobs, refs, [(0, k), (1, max(0, R.choice(same.get(wa[k], [k])) + R.choice([0, 0, 0, 1, -1]))), (0, 10**9), (1, 10**9)], mode, "%s:%d both" % wa[k][:2], before, fine): return
        # three threads
        jobs = [pool[i][R.choice(FIRST)] for i in range(3)]
        refs = [reference(j, mode) for j in jobs]
        lens = [len(alone(j, mode)[1]) for j in jobs]
        words = c.words("Schedules3")
        for w in R.sample(words, min(len(words), 12 if c.quick else 80)):
            plan = [("abc".index(ch), lens["abc".index(ch)] // 3 + 1) for ch in w]
            if not schedule(jobs, refs, plan, mode, w): return
        # free running threads
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        for _ in range(6 if c.quick else 60):
            fresh(mode)
            jobs = [pool[i % 3][R.choice(list(pool[0]))] for i in range(5)]
            res = [None] * 5
            bar = threading.Barrier(5)
            def go(i):
                bar.wait()
                try: res[i] = bind(jobs[i])()
                except Exception as e: res[i] = "!" + type(e).__name__
            ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(5)]
            for t in ts: t.start()
            for t in ts: t.join(30)
            alone_ = [exact_job(j) for j in jobs]
            s = Rec(0, mode)
            for i in range(5):
                s.add(t="memo", key=str(i), val=repr(alone_[i]), mut=False); s.add(t="memo", key=str(i), val=repr(res[i]), mut=False)
            c.emit(s)
        sys.setswitchinterval(old)
def exact_job(j): return bind(j)()
