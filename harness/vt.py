"""Running TLC and the driver: everything a check needs, nothing about any property."""
import os, sys, json, re, subprocess, hashlib, fcntl, tempfile, shutil, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BIP38_REPO", "/repo")
SPEC = VERIF + "/spec"
CLASSES = VERIF + "/build/classes"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

class Broken(Exception):
    """The machinery did not give an answer."""

def ensure_java():
    """Compile java/*.java into build/classes when they are missing or out of date."""
    src = sorted(glob.glob(VERIF + "/java/*.java"))
    tag = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    os.makedirs(CLASSES, exist_ok=True)
    with open(VERIF + "/build/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mark = CLASSES + "/built"
        if os.path.exists(mark) and open(mark).read() == tag and os.path.exists(CLASSES + "/Overrides.class"): return
        r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", CLASSES, *src], capture_output=True, text=True)
        if r.returncode: raise Broken("javac: " + r.stderr)
        open(mark, "w").write(tag)

class Work:
    """A scratch directory with copies of the specification."""
    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix="bip38-" + name + "-")
        for f in glob.glob(SPEC + "/*.tla"): shutil.copy(f, self.dir)
        self.n = 0
    def path(self, name): return os.path.join(self.dir, name)
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
def tlc(w, module, cfg, env=None, timeout=800, workers=8, heap="6g", args=(), pure=False):
    """Runs TLC; returns (output lines, ok, (generated, distinct))."""
    ensure_java()
    w.n += 1
    name = "%s_%d" % (module, w.n)
    open(w.path(name + ".cfg"), "w").write(cfg)
    cp = JARS if pure else CLASSES + ":" + JARS
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"] + ([] if pure else ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Overrides"]) + \
          ["-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", w.path("st_" + name), "-noGenerateSpecTE", "-config", name + ".cfg"] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=w.dir, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise Broken("TLC on %s took more than %d s" % (module, timeout))
    shutil.rmtree(w.path("st_" + name), ignore_errors=True)
    m = STATS.findall(r.stdout)
    gen = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.stdout.splitlines(), r.returncode == 0, gen, r.stdout + r.stderr

REAL = open(SPEC + "/real.inc").read()
def real_cfg(kdf, extra=""): return REAL + ' KdfMode = "%s"\n%s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % (kdf, extra)

def ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows: f.write(json.dumps(r, separators=(",", ":")) + "\n")

def forge(w, requests, kdf):
    """Texts the specification makes: {id: {field: code points}}."""
    if not requests: return {}
    p = w.path("plan.nd"); ndjson(p, requests)
    lines, ok, gen, full = tlc(w, "Forge", real_cfg(kdf), {"PLAN": p})
    if not ok: raise Broken("Forge: " + full[-3000:])
    out = {}
    for l in lines:
        m = re.match(r'^"F (\d+) (\w+) <<(.*)>>"$', l)
        if m: out.setdefault(int(m[1]), {})[m[2]] = [int(x) for x in m[3].split(",")] if m[3].strip() else []
    missing = [q["id"] for q in requests if q["id"] not in out]
    if missing: raise Broken("Forge made nothing for %s\n%s" % (missing[:5], full[-2000:]))
    return out

class NoStub(Exception): pass
def drive(w, scripts, kdf, flags=(), jobs=8, limit=600):
    """Histories of the real library running the scripts, every tenth of them in an interpreter set up differently."""
    usual = [s for s in scripts if s["id"] % 10 != 3 or "group" in s or "mode" in s]
    other = [s for s in scripts if not (s["id"] % 10 != 3 or "group" in s or "mode" in s)]
    runs = [(usual, ["-B"], {}, jobs if not other else max(1, jobs - 1)),
            (other, ["-B", "-OO"], {"PYTHONHASHSEED": "1", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Kathmandu", "COLUMNS": "20"}, 1 if jobs == 1 else 2)]
    going, hs = [], []
    for part, opts, env, k in runs:
        if not part: continue
        w.n += 1; src, dst = w.path("scripts%d.nd" % w.n), w.path("hist%d.nd" % w.n); ndjson(src, part); err = open(w.path("err%d" % w.n), "w+")
        going.append((subprocess.Popen([PY] + opts + [VERIF + "/harness/driver.py", src, dst, "--kdf", kdf, "--jobs", str(k), "--limit", str(limit)] + list(flags),
                                       stdout=err, stderr=err, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **env}, cwd=w.dir), dst, err))
    codes = [p.wait() for p, _, _ in going]
    for (p, dst, err), rc in zip(going, codes):
        err.seek(0); said = err.read(); err.close()
        if rc == 7: raise NoStub()
        if rc: raise Broken("driver (%d): %s" % (rc, said[-3000:]))
        hs += [json.loads(l) for l in open(dst)]
    return hs

def schedules(w, points, stride):
    """The interleavings TLC finds for pairs of calls with so many points: ({id: [[who starts, ka, kb]]}, states)."""
    p = w.path("points.nd"); ndjson(p, [{"id": i, "n": n} for i, n in points.items()])
    lines, ok, gen, full = tlc(w, "Threads", "CONSTANTS MaxSwitch = 2 Stride = %d\nSPECIFICATION Spec\nINVARIANT Says\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n" % stride, {"POINTS": p})
    if not ok: raise Broken("Threads: " + full[-3000:])
    out = {}
    for l in lines:
        m = re.match(r'^"S (\d+) (\d) (\d+) (\d+)"$', l)
        if m: out.setdefault(int(m[1]), set()).add((int(m[2]), int(m[3]), int(m[4])))
    return {i: sorted(x) for i, x in out.items()}, gen
def judge(w, histories, prop, kdf, timeout=800):
    """What the specification says of the histories: (violations, coverage, states, transitions)."""
    hs = [{"id": h["id"], "events": h["events"]} for h in histories if h["events"]]
    if not hs: return [], {}, 0, 0
    p = w.path("trace%d.nd" % w.n); ndjson(p, hs)
    lines, ok, gen, full = tlc(w, "Trace", real_cfg(kdf, ' Prop = "%s"' % prop), {"TRACE": p}, timeout=timeout)
    if not ok: raise Broken("Trace: " + "\n".join(l for l in full.splitlines() if not l.startswith('"COV'))[-3500:])
    want = sum(len(h["events"]) + 1 for h in hs)
    if gen[1] != want: raise Broken("Trace: %d states instead of %d" % (gen[1], want))
    bad, cov = [], {}
    for l in lines:
        if l.startswith('"BAD '):
            _, i, k, c = l[1:-1].split(" ", 3); bad.append((int(i), int(k), c))
        elif l.startswith('"COV '):
            c = l[5:-1]; cov[c] = cov.get(c, 0) + 1
    return bad, cov, gen[1], want - len(hs)
