#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: makes /verif/seeded/<id> from the definitions in DEFS.py, after
confirming in a scratch copy of /repo that the change applies, touches lines of the base
commit, passes the stable tests, and that its demonstration fails with it and passes without.
Then runs the property's quick check against the copy and says what it found.

Not used by any check; kept so that the planted changes can be made again.
"""
import sys, os, re, json, subprocess, shutil, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PRE = open(os.path.join(VERIF, "tools", "demo_prelude.py")).read()
def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})})
BASE = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.split()[0]
def one(b, check=True):
    d = tempfile.mkdtemp(prefix="plant-"); copy = d + "/repo"; out = VERIF + "/seeded/" + b["id"]; msg = []
    try:
        sh(["cp", "-a", "/repo", copy], "/"); os.makedirs(out, exist_ok=True)
        sh("git checkout -q -- . && git clean -fdq", copy)
        for f, old, new in b["edits"]:
            p = copy + "/bip38/" + f; s = open(p).read(); n = s.count(old)
            want = b.get("count", {}).get(old, 1)
            if n != want: return b["id"], "edit of %s matches %d times: %r" % (f, n, old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", copy).stdout
        minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = sh("git diff --name-only", copy).stdout.split()
        old = "\n".join(sh(["git", "show", BASE + ":" + f], copy).stdout for f in base).splitlines()
        if not minus: msg.append("only adds lines")
        elif not any(l in old for l in minus if l.strip()): msg.append("changes no line of the base")
        if b.get("keep", True): open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(PRE + b["demo"].strip("\n") + "\nprint(\"ok\")\n")
        open(out + "/demo.sh", "w").write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'); os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", "bip38/libs/ripemd160.py"], copy)
        if t.returncode: msg.append("TESTS FAIL " + t.stdout[-300:])
        a = sh(["sh", out + "/demo.sh"], copy, 300); c = sh(["sh", out + "/demo.sh"], "/repo", 300)
        if a.returncode == 0: msg.append("DEMO passes with the change")
        if c.returncode: msg.append("DEMO fails without the change: " + (c.stdout + c.stderr)[-500:])
        if a.returncode and "FAIL" not in a.stdout: msg.append("demo: " + a.stderr[-200:])
        if check:
            for p in [b["prop"]] + b.get("also", []):
                k = sh([sys.executable, VERIF + "/harness/check.py", p, "quick"], d, 900, {"BIP38_REPO": copy, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
                cl = sorted(set(re.findall(r"^  (C\d+:[\w-]+|[\w:-]+): ", k.stdout, re.M)))
                msg.append("%s rc=%d %s" % (p, k.returncode, " ".join(cl) or (k.stdout + k.stderr)[-200:].strip()))
        return b["id"], " | ".join(msg)
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]; check = "--no-check" not in sys.argv
    todo = [b for b in m.BUGS if not ids or b["id"] in ids or any(b["id"].startswith(i) for i in ids)]
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as ex:
        for i, r in ex.map(lambda b: one(b, check), todo): print(i, r, flush=True)
main()
