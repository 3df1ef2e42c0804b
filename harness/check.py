"""check.py ID [TIER]: decides one property.  Tier (unless given) and seed from VERIF_TIER and VERIF_SEED.
check.py --replay FILE: judges a recorded session again."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, random
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tlc
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

# property -> spec models explored before driving the code: (name, module, cfg quick, cfg thorough, expect)
M = lambda name, mod, q, t=None, expect="ok": (name, "models/%s.tla" % mod, "models/%s.cfg" % q, "models/%s.cfg" % (t or q), expect)
MODELS = {
    "C01": [M("Leap", "Leap", "Leap")], "C02": [M("Leap", "Leap", "Leap")],
    "C05": [M("Gate", "Gate", "Gate"), M("Decor", "Decor", "Decor")],
    "C11": [M("Places", "Domain", "Places")], "C28": [M("Places", "Domain", "Places"), M("Instants", "Domain", "Instants")],
    "C18": [M("Backend", "Backend", "Backend4", "Backend5"), M("BackendNo", "Backend", "BackendNo")],
    "C20": [M("Histories", "Histories", "Histories2", "Histories3")],
    "C21": [M("Range", "Range", "Range", "RangeDeep"), M("Several", "Several", "Several2", "Several3")], "C22": [M("Range", "Range", "Range"), M("Several", "Several", "Several2", "Several3")],
    "C25": [M("Script", "Script", "Script15", "Script29")],
    "C27": [M("LazyInit", "LazyInit", "LazyInit"), M("LazyInitEarly", "LazyInit", "LazyInitEarly", None, "violated"), M("Schedules2", "Schedules", "Schedules2"), M("Schedules3", "Schedules", "Schedules3")],
    "C31": [M("Laws", "Laws", "Laws", "LawsDeep")],
    "C37": [M("Launch", "Launch", "Launch")],
    "C36": [M("Imports", "Imports", "Imports4", "Imports5")],
    "C34": [M("Pool", "Pool", "Pool4", "Pool5")],
    "C29": [M("Binding", "Binding", "Binding2", "Binding9")],
}
TZS = ["UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia"]
CHUNK = 25000

def run_models(prop, tier, scratch, errors):
    "explores the specification's own models; returns scenario files and numbers"
    out, stats, lock, ts = {}, [], threading.Lock(), []
    def one(m):
        name, mod, q, t, expect = m
        try:
            r = tlc.run(mod, t if tier == "thorough" else q, workers=2, heap="2g")
        except Exception as e:
            errors.append("model %s: %r" % (name, e)); return
        if (expect == "ok") != r.ok or (expect != "ok" and "is violated" not in r.out):
            errors.append("model %s: %s" % (name, r.out[-1500:])); return
        words = sorted({p[4:] for p in r.prints})
        path = os.path.join(scratch, name + ".scn")
        with open(path, "w") as f: f.write("\n".join(words) + ("\n" if words else ""))
        with lock:
            out[name] = path
            stats.append(dict(model=name, states=r.distinct, generated=r.generated, scenarios=len(words), expect=expect))
    for m in MODELS.get(prop, []):
        t = threading.Thread(target=one, args=(m,)); t.start(); ts.append(t)
    for t in ts: t.join()
    return out, stats

def parts_of(prop, cores):
    "(part, nparts, extra environment)"
    n = cores
    if prop == "C18": return [(i, n - 2, {}) for i in range(n - 2)] + [(i, 2, {"VERIF_NO_NUMPY": "1"}) for i in range(2)]
    if prop == "C36": return [(i, n - 1, {}) for i in range(n - 1)] + [(0, 1, {"VERIF_NO_NUMPY": "1"})]
    return [(i, n, {}) for i in range(n)]

def drivers(prop, tier, seed, scn, scratch, limit):
    procs = []
    for k, (i, n, extra) in enumerate(parts_of(prop, 8)):
        out = os.path.join(scratch, "part%d.jsonl" % k)
        env = {**os.environ, "TZ": TZS[k % len(TZS)], "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore", "PYTHONHASHSEED": str(k), **extra}
        for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"): env[v] = "1"
        log = open(os.path.join(scratch, "part%d.log" % k), "w")
        procs.append((k, out, log.name, subprocess.Popen([PY, os.path.join(HERE, "drive.py"), prop, str(i), str(n), tier, str(seed), out, json.dumps(scn)], stdout=log, stderr=subprocess.STDOUT, env=env, cwd=scratch)))
    end = time.time() + limit
    failures = []
    for k, out, log, p in procs:
        try: rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = "timeout"
        if rc != 0: failures.append((k, rc, open(log).read()[-3000:]))
    return [o for _, o, _, _ in procs], failures

def sessions(paths):
    for p in paths:
        if not os.path.exists(p): continue
        with open(p) as f:
            for l in f:
                try: yield json.loads(l)
                except ValueError: pass       # cut off by a crash

def judge(batch, scratch, workers=8):
    "(verdicts [(session, position, verdict)], states, transitions, errors)"
    path = os.path.join(scratch, "trace.json")
    with open(path, "w") as f: json.dump({"sessions": batch}, f, separators=(",", ":"))
    r = tlc.run("Trace.tla", "Trace.cfg", workers=workers, env={"TRACE_FILE": path}, heap="8g")
    want = sum(len(s["ev"]) + 1 for s in batch)
    err = None
    if not r.ok or r.distinct != want:
        import re
        m = re.findall(r"/\\ sid = (\d+)", r.out); q = re.findall(r"/\\ pos = (\d+)", r.out)
        err = (int(m[-1]) if m else None, int(q[-1]) + 1 if q else None, r.out[-2500:], r.distinct, want)
    return r.verdicts, r.distinct, r.generated, err

def val(x):
    "a result, readable"
    if isinstance(x, dict):
        if "n" in x:
            n = x["n"]
            if n == [0]: return 0.0
            v = sum(d * 10000**i for i, d in enumerate(n[1:])) * n[0]
            return v / 10**24
        if "dt" in x: return "%04d-%02d-%02dT%02d:%02d:%02d.%06d%+ds" % tuple(x["dt"][:8])
        return {k: val(v) for k, v in x.items() if k != "k"}
    if isinstance(x, list):
        return [val(v) for v in x]
    return x
def readable(e): return {k: (val(v) if k in ("p", "k", "r", "time", "alt", "azi", "rad", "shade", "start", "stop", "v") else v) for k, v in e.items() if k not in ("obs", "limit", "args", "lines", "out")}

def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f: d = json.load(f)
        tmp = tempfile.mkdtemp(prefix="vreplay")
        try: v, *_ = judge([d["session"]], tmp, 1)
        finally: shutil.rmtree(tmp)
        for x in v: print(x)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    with open(os.path.join(VERIF, "known_findings.json")) as f: kf = json.load(f)
    known = {x["label"]: x for x in kf["findings"] if prop in x["properties"]}
    scratch = tempfile.mkdtemp(prefix="vcheck_%s_" % prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    bad, errors, seen_known, samples = [], [], {}, []
    states = trans = nsess = nev = 0
    try:
        tlc.ensure_build()
        scn, stats = run_models(prop, tier, scratch, errors)
        if errors:
            print("ERROR of the check:", *errors, sep="\n"); return 2
        for s in stats: states += s["states"]; trans += s["generated"]
        limit = 500 if tier == "quick" else 3600 * 3
        outs, failures = drivers(prop, tier, seed, scn, scratch, limit)
        t1 = time.time()
        kinds = {}
        def flush(batch):
            nonlocal states, trans
            v, st, tr, err = judge(batch, scratch)
            states += st; trans += tr
            if err:
                sid, pos, text, got, want = err
                if sid is None:
                    errors.append("trace validation: %d states, %d expected\n%s" % (got, want, text)); return
                bad.append((batch[sid - 1], pos, "bad:result-of-unspecified-form", text))
            for sid, pos, verdict in v:
                s = batch[sid - 1]
                if verdict.startswith("known:"):
                    for lab in verdict[6:].split("+"):
                        if lab in known: seen_known[lab] = seen_known.get(lab, 0) + 1
                        else: bad.append((s, pos, "bad:deviation-" + lab, ""))
                else: bad.append((s, pos, verdict, ""))
        batch, size = [], 0
        allsess = list(sessions(outs))
        random.Random(seed).shuffle(allsess)            # costly ones spread over the batches
        for s in allsess:
            batch.append(s); size += len(s["ev"]); nsess += 1; nev += len(s["ev"])
            for e in s["ev"]: kinds[e["t"] + (":" + e["op"] if "op" in e else "")] = kinds.get(e["t"] + (":" + e["op"] if "op" in e else ""), 0) + 1
            if size >= CHUNK:
                flush(batch); batch, size = [], 0
            if len(bad) > 50 and tier == "quick": break
        if batch: flush(batch)
        for s in (allsess[:3] if len(allsess) > 3 else allsess):
            samples.append({"mode": s["mode"], "events": [readable(e) for e in s["ev"][:3]]})
        for k, rc, text in failures:
            bad.append(({"id": -1, "mode": "?", "ev": []}, 0, "bad:driver-" + str(rc), text))
        if not nsess and not failures: errors.append("no sessions")
        if errors:
            print("ERROR of the check:", *errors, sep="\n")
            if not bad: return 2
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": nsess, "events": nev, "samples": samples,
                           "models": stats, "operations": dict(sorted(kinds.items())), "known_deviation_events": seen_known},
              "assumptions": ["the TLA+ specification in spec/ states the published formulas and the documented behaviour", "TLC and the fixed-point arithmetic of spec/Fx.tla with its Java overrides"],
              "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for lab, x in known.items(): print("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
        print("%s %s seed %d: %d sessions, %d events, %d states, %.1f s (drivers until %.1f s)" % (prop, tier, seed, nsess, nev, states, time.time() - t0, t1 - t0))
        if not bad: return 0
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % prop)
        s, pos, verdict, text = bad[0]
        cut = dict(s, ev=s["ev"][:pos] if pos else s["ev"])
        with open(path, "w") as f:
            json.dump({"property": prop, "verdict": verdict, "position": pos, "text": text, "event": readable(cut["ev"][-1]) if cut["ev"] else None, "session": cut}, f, indent=1)
        for s, pos, verdict, text in bad[:8]:
            print("  ", verdict, json.dumps(readable(s["ev"][pos - 1]))[:400] if s["ev"] and pos else text[-600:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
