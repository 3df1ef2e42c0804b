"""corrupt.py [C..]: how tight the binding is.  Records the quick sessions of each property, changes one recorded field in a
copy of each of up to 300 sessions, and counts the copies the specification rejects.  Not a check; numbers go to DESIGN.md."""
import sys, os, json, random, tempfile, shutil, copy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import check
from fractions import Fraction

def num(l): return sum(d * 10000**i for i, d in enumerate(l[1:])) * l[0]
def lim(v):
    s, v, o = (v > 0) - (v < 0), abs(v), []
    while v: o.append(v % 10000); v //= 10000
    return [s] + o
def places(x, path=()):
    "fields of a recorded answer that can be changed"
    if isinstance(x, dict):
        if "n" in x and isinstance(x["n"], list): yield path, "n"
        elif "dt" in x and isinstance(x["dt"], list): yield path, "dt"
        elif "e" in x and isinstance(x["e"], list): yield path, "e"
        else:
            for k in x: yield from places(x[k], path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x): yield from places(v, path + (k,))
FIELDS = {"call": ["r"], "refused": ["r"], "agree": ["r"], "yield": ["time", "alt", "azi", "rad", "shade"], "next": ["time"], "month": ["v"], "memo": ["val"], "around": ["after"], "script": ["out"], "switch": ["cur"], "count": [], "relate": ["x"]}
def corrupt(R, s):
    "one change in one event; returns (kind, position) or None"
    order = list(range(len(s["ev"]))); R.shuffle(order)
    for p in order:
        e = s["ev"][p]
        for f in FIELDS.get(e["t"], []):
            if f not in e: continue
            if e["t"] == "memo":
                if not any(q["t"] == "memo" and q["key"] == e["key"] for k, q in enumerate(s["ev"]) if k != p): continue
                e["val"] = e["val"] + "?"; return "memo", p
            if e["t"] == "around": e["after"] = e["after"][:-1] + ["x=y"]; return "around", p
            if e["t"] == "switch": e["cur"] = "numpy" if e["cur"] == "math" else "math"; return "switch", p
            if e["t"] == "script":
                rows = [r for r in e["out"]["rows"] if r]
                if rows: R.choice(rows)[0] = lim(num(rows[0][0]) + 10**22); return "script", p
                continue
            c = list(places(e[f]))
            if not c: continue
            path, kind = R.choice(c)
            o, last = e, f
            for k in path: o, last = o[last], k
            x = o[last]
            if kind == "n":
                big = e["t"] == "relate"
                v = num(x["n"])
                d = abs(v) // 10**4 + 10**18 if not big else abs(v) // 2 + 3 * 10**24
                o[last] = dict(x, n=lim(v + R.choice([1, -1]) * d)); return "number" + ("-relate" if big else ""), p
            if kind == "dt":
                y = list(x["dt"]); y[5] = (y[5] + 1) % 60; o[last] = dict(x, dt=y); return "datetime", p
            o[last] = {"n": [1, 0, 0, 0, 0, 0, 0, 1], "k": "float"}; return "no-exception", p
    return None

def main():
    R = random.Random(int(os.environ.get("VERIF_SEED") or 1))
    total = {}
    for prop in sys.argv[1:] or ["C%02d" % i for i in range(1, 32)]:
        tmp = tempfile.mkdtemp(prefix="vcorrupt")
        try:
            scn, _ = check.run_models(prop, "quick", tmp, [])
            outs, _ = check.drivers(prop, "quick", 1, scn, tmp, 500)
            al = list(check.sessions(outs)); R.shuffle(al)
            batch, what = [], []
            for s in al:
                s = copy.deepcopy(s)
                if len(s["ev"]) > 400: s["ev"] = s["ev"][:400]
                w = corrupt(R, s)
                if w: batch.append(s); what.append(w)
                if len(batch) == 300: break
            v, _, _, err = check.judge(batch, tmp) if batch else ([], 0, 0, None)
            hit = {sid - 1 for sid, pos, x in v if x.startswith("bad:") and pos - 1 >= what[sid - 1][1]}
            if err: print(prop, "error", err[:2])
            miss = [k for k in range(len(batch)) if k not in hit]
            print("%s: %d of %d corrupted sessions rejected" % (prop, len(hit), len(batch)))
            for k in miss[:int(os.environ.get("SHOW") or 3)]: print("    accepted:", what[k], json.dumps(check.readable(batch[k]["ev"][what[k][1]]))[:300])
            for k, (kind, _) in enumerate(what):
                t = total.setdefault(kind, [0, 0]); t[1] += 1; t[0] += k in hit
        finally: shutil.rmtree(tmp)
    print(total)
main()
