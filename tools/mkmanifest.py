"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "TLA+ specification checked with TLC (ideal functionality and toy instance of the protocol, exhaustive within bounds); behaviours TLC draws from it replayed into the real library, and histories of the library, from scripts with records forged by the specification, judged event by event by TLC against the same specification at octet level"
CODEC = "TLA+ specification (pure definitions of the conversion, its laws checked by TLC over all inputs of small instances); calls of the real library recorded and judged by TLC against the definitions at octet level"
TRUST = "Holds on every explored history; inputs are sampled (structured corners and random), so a deviation confined to inputs never drawn can be missed. Trusts TLC, the Java overrides of the specification's primitives (cross-checked with the TLA+ definitions at setup), and for most histories a stand-in for scrypt shared by both sides (a sample runs with scrypt itself)."
EXTRA = {
 "C18": "TLA+ specification of drawn values; codes and seeds drawn by the real library in several processes, under frozen clocks and reseeded generators, collected into histories that TLC judges (size, distinctness, usability)",
 "C19": "TLA+ specification of calls as atomic steps; interleavings of two real calls at recorded preemption points, random histories with failures, and fresh processes, all judged by TLC: every call must have the outcome it has alone",
 "C24": "TLA+ specification of the world as parts that every call must leave as they are; calls of the real library recorded with the parts they touched (audit events, snapshots of process-wide state) and judged by TLC",
 "C23": "TLA+ specification of what is secret in each call; error texts of refused calls, with their chains, judged by TLC",
}
out = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": [], "not_applicable": [], "notes": "No hooks in /repo: the public API exposes the state; preemption points and the scrypt stand-in are installed from outside by harness/driver.py. Run one check: python3 harness/check.py C01 [quick|thorough]; replay a violation: python3 harness/check.py --replay FILE."}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    t = EXTRA.get(p, CODEC if p in ("C13", "C14", "C15", "C16", "C17", "C22") else BASE)
    out["checks"].append({"property": p, "quick_cmd": "python3 harness/check.py %s quick" % p, "thorough_cmd": "python3 harness/check.py %s thorough" % p,
                          "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": TRUST})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
