#!/usr/bin/env python3
"""check.py Cnn [quick|thorough] | check.py --replay FILE

Decides one property: explores its finite models with TLC, has the specification make the
records the scripts need, runs the scripts on the library in /repo, and has TLC judge every
recorded history against the specification.  Writes evidence/Cnn.json.
"""
import sys, os, json, time, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt, plans, models, sessions

VERIF = vt.VERIF
def known(prop):
    """Clauses of findings that are recorded and not repaired."""
    out = []
    for l in open(VERIF + "/known-findings.txt"):
        if l.startswith("known: "):
            d = dict(x.split("=", 1) for x in l[7:].split(" -- ")[0].split())
            if d["property"] == prop: out.append({**d, "what": l.split(" -- ", 1)[1].strip()})
    return out

def fill(x, forged):
    """Puts the texts the specification made where the script refers to them."""
    if isinstance(x, dict):
        if "forged" in x:
            t = forged[x["forged"]][x["field"]]
            return {"lit": t, "edits": x["edits"]} if x.get("edits") else t
        return {k: fill(v, forged) for k, v in x.items()}
    if isinstance(x, list): return [fill(v, forged) for v in x]
    return x
def prepared(scripts, forged):
    out = []
    for s in scripts:
        s = dict(s); ev = []
        for e in s["events"]:
            if e.get("op") == "forge": e = {**e, "texts": forged[e["req"]]}; del e["req"]
            if isinstance(e.get("text"), dict) and "forged" in e["text"]: e = fill(e, forged)
            if isinstance(e.get("how"), dict): e = {**e, "how": dict(e["how"])}
            ev.append(e)
        s["events"] = ev; out.append(s)
    return out

def merged(scripts, hs):
    """One history per group; the processes that made one call come first."""
    group = {s["id"]: s.get("group", s["id"]) for s in scripts}; fresh = {s["id"] for s in scripts if s.get("mode") == "fresh"}
    g = {}
    for h in sorted(hs, key=lambda h: (h["id"] not in fresh, h["id"])): g.setdefault(group[h["id"]], {"id": group[h["id"]], "events": []})["events"].extend(h["events"])
    return list(g.values())

def draws(hs, nid):
    """The codes and seeds drawn by the library in all processes, as one event per kind."""
    kinds = {"salt": [], "lotsalt": [], "seed": []}
    for h in hs:
        for e in h["events"]:
            if e["out"]["st"] != "ok": continue
            if e["op"] == "icode" and e["salt"] == [-1]: kinds["salt" if e["lot"] == [-1] else "lotsalt"].append(e["out"]["v"]["code"])
            if e["op"] == "create" and e["seed"] == [-1]: kinds["seed"].append(e["out"]["v"]["seed"])
    return [{"id": nid + i, "events": [{"op": "draws", "kind": k, "texts": t, "out": {"st": "ok", "lib": False, "pass": False, "net": False, "secp": False, "v": [-1], "msg": []}}]} for i, (k, t) in enumerate(sorted(kinds.items())) if t]

def chunks(hs, limit=9000):
    out, n = [], 0
    for h in sorted(hs, key=lambda h: -len(h["events"])):
        out.append(h); n += len(h["events"])
        if n >= limit: yield out; out, n = [], 0
    if out: yield out

def text(c): return "".join(chr(x) if 32 <= x < 127 else "\\u%04x" % x for x in c)
def show(v):
    """An event in a readable form."""
    if isinstance(v, dict): return {k: show(x) for k, x in v.items()}
    if isinstance(v, list):
        if v == [-1]: return None
        if len(v) > 2 and all(isinstance(x, int) and 32 <= x < 127 for x in v): return text(v)
        if v and all(isinstance(x, int) and 0 <= x < 256 for x in v): return "hex " + bytes(v).hex() if len(v) > 1 else v
        return v
    return v

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.bad, self.cov, self.states, self.trans, self.traces, self.events = [], {}, 0, 0, 0, 0
        self.models, self.samples, self.notes = [], [], []
    def part(self, w, scripts, reqs, kdf, flags=(), collect=None):
        """Runs scripts on the library and judges what happened."""
        if not scripts: return
        need = set()
        def find(x):
            if isinstance(x, dict):
                if "forged" in x: need.add(x["forged"])
                if "req" in x: need.add(x["req"])
                for v in x.values(): find(v)
            elif isinstance(x, list) and x and isinstance(x[0], (dict, list)):
                for v in x: find(v)
        find(scripts)
        forged = vt.forge(w, [{**{k: v for k, v in q.items() if k != "kdf"}} for q in reqs if q["id"] in need], kdf)
        ready = prepared(scripts, forged)
        self.schedule(w, [s for s in ready if s.get("mode") == "interleave"], kdf, flags)
        hs = vt.drive(w, ready, kdf, flags, limit=600 if self.tier == "quick" else 3000)
        if len(hs) != len({s["id"] for s in ready}): raise vt.Broken("the driver returned %d histories for %d scripts" % (len(hs), len(ready)))
        if collect is not None: collect += [h for h, s in zip(sorted(hs, key=lambda h: h["id"]), sorted(ready, key=lambda s: s["id"])) if s.get("draws")]
        hs = merged(ready, hs)
        byid = {h["id"]: h for h in hs}; src = {}
        for s in ready: src.setdefault(s.get("group", s["id"]), []).append(s)
        self.judge(w, hs, kdf, flags, src)
    def schedule(self, w, pairs, kdf, flags):
        """Counts the points of the calls of each pair, and puts in the schedules of spec/Threads.tla."""
        if not pairs: return
        prof = vt.drive(w, [{**s, "schedules": [[1, 0, 0]]} for s in pairs], kdf, flags)
        points = {h["id"]: h["points"] for h in prof}
        sched, gen = vt.schedules(w, points, 7 if self.tier == "quick" else 2)
        self.models.append(("threads", True, gen[0], gen[1], "")); deep = self.tier != "quick"
        for s in pairs:
            r = plans.random.Random(s["seed"]); a = sched.get(s["id"], []); one = [x for x in a if x[2] == 0]; two = [x for x in a if x[2]]
            s["schedules"] = [[1, 0, 0]] + [list(x) for x in (one if deep or len(one) <= 160 else r.sample(one, 160)) + r.sample(two, min(len(two), 500 if deep else 40))]
        self.notes.append("points of the interleaved pairs: %s" % sorted(points.values()))
    def judge(self, w, hs, kdf, flags, src):
        byid = {h["id"]: h for h in hs}
        for part in chunks(hs):
            bad, cov, st, tr = vt.judge(w, part, self.prop, kdf, timeout=850 if self.tier == "quick" else 6000)
            if sum(cov.values()) != tr: raise vt.Broken("Trace: %d events judged of %d" % (sum(cov.values()), tr))
            self.states += st; self.trans += tr; self.traces += sum(1 for h in part if h["events"])
            for c, k in cov.items(): self.cov[c] = self.cov.get(c, 0) + k
            for i, k, c in bad: self.bad.append({"clause": c, "event": k, "history": byid[i], "kdf": kdf, "flags": list(flags), "scripts": src.get(i, [])})
        for h in hs[:: max(1, len(hs) // 3)][:3]:
            if h["events"]: self.samples.append({"kdf": kdf, "last_event_of_history": show({k: v for k, v in h["events"][-1].items() if k != "how"}), "events": [e["op"] for e in h["events"]][:12]})
    def behaviours(self, w, P):
        """Behaviours TLC draws from the ideal functionality, as scripts."""
        if self.prop not in sessions.USERS: return
        deep = self.tier != "quick"; n = 2500 if deep else 60
        logs, g = sessions.gen(w, n, 20 if deep else 16, self.seed * 100 + int(self.prop[1:]))
        self.models.append(("behaviours drawn from Ideal", True, g, g, ""))
        few = 25 if deep else 2
        for log in logs[few:]: sessions.script(P, log)
        P.target = P.real
        for log in logs[:few]: sessions.script(P, log[:10])
        P.target = P.scripts
    def fallback(self, scripts, budget):
        """The same scripts with the real scrypt, as many as the time allows."""
        r = plans.random.Random(self.seed); pick = list(scripts); r.shuffle(pick); out, n = [], 0
        for s in sorted(pick, key=lambda s: len(s["events"]) > 40):
            if n + len(s["events"]) > budget: continue
            out.append(s); n += len(s["events"])
        return out
    def run(self):
        t0 = time.time()
        P = plans.plan(self.prop, self.tier, self.seed)
        err = []
        def mc():
            try: self.models += models.run(self.prop, self.tier, self.seed)
            except BaseException as ex: err.append(ex)
        th = threading.Thread(target=mc); th.start()
        w = vt.Work(self.prop); drawn = []
        try:
            self.behaviours(w, P)
            collect = drawn if self.prop == "C18" else None
            try:
                self.part(w, P.scripts, P.reqs, "standin", (), collect)
                for scripts, flags in P.runs: self.part(w, scripts, P.reqs, "standin", flags, collect)
            except vt.NoStub:
                self.notes.append("the library does not derive keys through scrypt.hash or hashlib.scrypt any more: real scrypt, fewer cases")
                budget = 1200 if self.tier == "quick" else 12000
                self.part(w, self.fallback(P.scripts, budget), P.reqs, "scrypt", (), collect)
                for scripts, flags in P.runs: self.part(w, self.fallback(scripts, budget // 4), P.reqs, "scrypt", flags, collect)
            self.part(w, P.real, P.reqs, "scrypt", ("--jobs", "8"))
            if drawn: self.judge(w, draws(drawn, 900000), "standin", (), {})
        finally:
            th.join(); w.close()
        if err: raise err[0]
        for name, ok, gen, dist, full in self.models:
            if not ok: raise vt.Broken("model %s: %s" % (name, full[-3000:]))
        return self.report(time.time() - t0)
    def report(self, wall):
        ks = known(self.prop); fresh, listed = [], {}
        for b in self.bad:
            k = next((k for k in ks if k["clause"] == b["clause"] and k.get("coin", "") in ("", b["history"]["events"][b["event"] - 1].get("coin"))), None)
            if k: listed.setdefault(k["what"], []).append(b)
            else: fresh.append(b)
        for what, bs in listed.items(): print("KNOWN-FINDING: property=%s %s (%d events)" % (self.prop, what, len(bs)))
        ms = [{"model": n, "states_generated": g, "distinct_states": d} for n, ok, g, d, _ in self.models]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "wall_s": round(wall, 1), "violations": len(fresh),
              "coverage": {"states": self.states + sum(m["distinct_states"] for m in ms), "transitions": self.trans + sum(m["states_generated"] for m in ms), "traces_validated_against_impl": self.traces,
                           "events_judged": self.trans, "finite_models": ms, "classes_of_events": dict(sorted(self.cov.items())), "samples": self.samples[:8],
                           "known_findings_seen": {k: len(v) for k, v in listed.items()}},
              "assumptions": ["the primitives of the specification are computed by java/Overrides.java; setup cross-checks them against the TLA+ definitions",
                              "most histories run with a stand-in for scrypt that both sides share (PBKDF2-HMAC-SHA256 over all of scrypt's arguments); a sample runs with scrypt itself"] + self.notes}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/.%s.%d" % (self.prop, os.getpid()); json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, VERIF + "/evidence/%s.json" % self.prop)
        if not fresh:
            print("%s %s: held on %d histories, %d events (%.0f s)" % (self.prop, self.tier, self.traces, self.trans, wall)); return 0
        os.makedirs(VERIF + "/replay", exist_ok=True); seen = set()
        for b in sorted(fresh, key=lambda b: len(b["history"]["events"])):
            if b["clause"] in seen: continue
            seen.add(b["clause"]); path = VERIF + "/replay/%s-%s.json" % (self.prop, b["clause"].split(":")[-1])
            e = b["history"]["events"][b["event"] - 1]
            json.dump({"property": self.prop, "clause": b["clause"], "kdf": b["kdf"], "flags": b["flags"], "event": b["event"], "shown": show(e), "scripts": b["scripts"], "history": b["history"]}, open(path, "w"))
            print("  %s: %s" % (b["clause"], json.dumps(show({k: v for k, v in e.items() if k not in ("how",)}))[:700]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

def replay(path):
    d = json.load(open(path)); c = Check(d["property"], "quick", 0); w = vt.Work("replay")
    try:
        if d["scripts"]:
            hs = merged(d["scripts"], vt.drive(w, d["scripts"], d["kdf"], d["flags"])); c.judge(w, hs, d["kdf"], d["flags"], {hs[0]["id"]: d["scripts"]})
        else: c.judge(w, [d["history"]], d["kdf"], d["flags"], {})
    finally: w.close()
    for b in c.bad: print(b["clause"], "event", b["event"], json.dumps(show(b["history"]["events"][b["event"] - 1]))[:900])
    return 1 if c.bad else 0

def main():
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try: code = Check(prop, tier, int(os.environ.get("VERIF_SEED", "1") or "1")).run()
    except vt.Broken as ex: print("no answer: %s" % ex); code = 2
    except Exception: traceback.print_exc(); code = 2
    sys.exit(code)
if __name__ == "__main__": main()
