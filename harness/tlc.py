"""Runs TLC."""
import os, subprocess, tempfile, shutil, re, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "/opt/veriftools/tla"
BUILD = os.path.join(VERIF, "build")

def ensure_build():
    cls = os.path.join(BUILD, "tlc2/module/FxMath.class")
    src = glob.glob(os.path.join(VERIF, "java/tlc2/module/*.java"))
    if all(os.path.exists(os.path.join(BUILD, "tlc2/module", os.path.basename(s)[:-5] + ".class")) and
           os.path.getmtime(os.path.join(BUILD, "tlc2/module", os.path.basename(s)[:-5] + ".class")) >= os.path.getmtime(s) for s in src): return
    tmp = tempfile.mkdtemp(prefix="vbuild")
    subprocess.run(["javac", "-cp", J + "/tla2tools.jar", "-d", tmp] + src, check=True)
    os.makedirs(BUILD, exist_ok=True)
    shutil.copytree(tmp, BUILD, dirs_exist_ok=True)
    shutil.rmtree(tmp)

class Result:
    pass

def run(module, cfg, workers=8, env=None, heap="4g", timeout=850, opts=(), overrides=True):
    """module: path of the .tla relative to spec/, cfg: path or name"""
    ensure_build()
    d = tempfile.mkdtemp(prefix="vtlc")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-DTLA-Library=%s/spec:%s/spec/models" % (VERIF, VERIF),
               "-cp", ":".join(([BUILD] if overrides else []) + [J + "/tla2tools.jar", J + "/CommunityModules-deps.jar"]), "tlc2.TLC",
               "-metadir", d, "-workers", str(workers), "-noGenerateSpecTE", "-config", os.path.join(VERIF, "spec", cfg)] + list(opts) + [os.path.basename(module)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env={**os.environ, **(env or {})}, cwd=os.path.dirname(os.path.join(VERIF, "spec", module)))
        r = Result()
        r.out, r.rc = p.stdout, p.returncode
        m = re.findall(r"(\d[\d,]*) states generated[^,]*, (\d[\d,]*) distinct states found", p.stdout)
        r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        r.ok = "Model checking completed. No error has been found." in p.stdout
        r.verdicts = []
        for l in p.stdout.splitlines():
            l = l.strip().strip('"')
            if l.startswith("VERDICT|"):
                _, s, i, v = l.split("|", 3)
                r.verdicts.append((int(s), int(i), v))
        r.prints = [l.strip()[1:-1] for l in p.stdout.splitlines() if l.startswith('"SCN|')]
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
