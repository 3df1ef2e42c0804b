"""Builds the Java overrides and model-checks the specification's foundations:
calendar (CivilCheck), the position algorithm against the published example (SpaCheck),
arithmetic identities (FxCheck), and the Java overrides against the TLA+ definitions
they replace (FxCheck without them: the printed values are the same)."""
import sys, os, threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc
tlc.ensure_build()
res = {}
def go(key, m, **k): res[key] = tlc.run(m.replace("Small", "Check") + ".tla", m + ".cfg", workers=8 if m == "FxSmall" else 2, **k)
ts = [threading.Thread(target=go, args=(m, m)) for m in ("CivilCheck", "SpaCheck", "FxCheck", "FxSmall")]
ts.append(threading.Thread(target=go, args=("FxSmall without overrides", "FxSmall"), kwargs=dict(overrides=False)))
for t in ts: t.start()
for t in ts: t.join()
bad = 0
for m, r in res.items():
    print(m, "ok" if r.ok else "FAILED", r.distinct, "states")
    if not r.ok: bad = 1; print(r.out[-3000:])
vals = [sorted(l for l in res[k].out.splitlines() if l.startswith('"FX|')) for k in ("FxSmall", "FxSmall without overrides")]
if vals[0] != vals[1] or not vals[0]:
    bad = 1; print("the overrides disagree with the TLA+ definitions")
    for a, b in zip(*vals):
        if a != b: print(a, b, sep="\n"); break
else: print("overrides agree with the definitions on", len(vals[0]), "grid points")
sys.exit(bad)
