"""Behaviours of spec/Ideal.tla as scripts: octets are put for the symbols.

gen() has TLC draw behaviours (Gen.tla); script() instantiates one.  The outcome and the terms that
Ideal gives travel with each event as "ideal" and are judged by TLC (IdealClauses in spec/Ties.tla).
"""
import re, json, random, unicodedata
import vt, plans
from plans import C, NONE, NETS, wif, wt

# the checks that play behaviours of Ideal
USERS = {"C%02d" % k for k in range(1, 13)} | {"C18", "C19", "C20", "C21"}

CFG = """CONSTANTS CoinTable <- RealCoins
 Pick <- One
 Passes <- GPasses
 Class <- GClass
 Keys <- GKeys
 Salts <- GSalts
 Seeds <- GSeeds
 Lots <- GLots
 Focuses <- GFocuses
 MaxLen = %d
SPECIFICATION Spec
INVARIANT Says
INVARIANT Available
INVARIANT Secret
INVARIANT Speaks
INVARIANT Stable
INVARIANT Bound
INVARIANT Local
INVARIANT Fresh
CHECK_DEADLOCK FALSE
"""
SMALL = """CONSTANTS CoinTable <- %s
 Pick <- All
 Passes <- MPasses
 Class <- MClass
 Keys <- MKeys
 Salts <- MSalts
 Seeds <- MSeeds
 Lots <- MLots
 Focuses <- %s
 MaxLen = %d
SPECIFICATION Spec
%sINVARIANT Available
INVARIANT Secret
INVARIANT Speaks
INVARIANT Stable
INVARIANT Bound
INVARIANT Local
INVARIANT Fresh
CHECK_DEADLOCK FALSE
"""
def said(lines):
    return [json.loads(json.loads(l)[2:]) for l in lines if l.startswith('"G ')]
def gen(w, num, length, seed):
    """([log], states checked)"""
    if not num: return [], 0
    lines, ok, _, full = vt.tlc(w, "Gen", CFG % length, args=["-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(seed)], workers=1)
    m = re.search(r"The number of states generated: (\d+)", full)
    if not ok or not m: raise vt.Broken("Gen: " + "\n".join(l for l in full.splitlines() if not l.startswith('"G'))[-3000:])
    logs = said(lines)
    if len(logs) < num: raise vt.Broken("Gen: %d behaviours of %d" % (len(logs), num))
    return logs, int(m[1])

class Meaning:
    """Octets for the symbols of one behaviour."""
    def __init__(self, P):
        r = self.r = P.r; self.P = P; nfc = lambda s: unicodedata.normalize("NFC", s)
        x = "".join(r.choice("bdfhkmprtxz239") for _ in range(r.randrange(1, 6))); f, g = r.choice(plans.NFC_FORMS)
        if r.random() < .3: f, g, like = "q\u0301e\u0301", "q\u0301\u00e9", None
        else: like = None
        a, e = x + f, x + g
        if nfc(a) != nfc(e): raise vt.Broken("not equivalent: %r %r" % (a, e))
        alikes = [s for s in (a + " ", " " + a, a.upper(), a.swapcase(), unicodedata.normalize("NFKC", a) + ("" if unicodedata.normalize("NFKC", a) != nfc(a) else "\0"), a + a, a[:-1], a + "\n", x, a + "\u0301") if nfc(s) not in (nfc(a), "")]
        b = "".join(r.choice("bdfhkmprtxz 239") for _ in range(9)) + r.choice(["", "\U0001f511", "\u4e2d", "\u0416"])
        self.passes = {"a": a, "a-equivalent": e, "a-like": r.choice(alikes), "b": b, "empty": "", "": ""}
        self.keys = {"k1": P.key(), "k2": P.key(), "k3": P.r.choice(plans.EDGE_KEYS)}
        while self.keys["k2"] in (self.keys["k1"], self.keys["k3"]) or self.keys["k1"] == self.keys["k3"]: self.keys["k1"], self.keys["k2"] = P.key(), P.key()
        self.salts = {"s1": P.oct(8), "s2": list(r.randbytes(8))}
        while self.salts["s1"][:4] == self.salts["s2"][:4]: self.salts["s2"] = list(r.randbytes(8))
        self.seeds = {"d1": P.oct(24), "d2": list(r.randbytes(24))}
        if self.seeds["d1"] == self.seeds["d2"]: self.seeds["d2"] = list(r.randbytes(24))
        l = r.sample(range(100000, 1000000), 2) if r.random() < .6 else r.sample([100000, 999999, 524288, 262143], 2); q = r.sample(range(4096), 2) if r.random() < .6 else r.sample([0, 4095, 256, 255], 2)
        self.lots = {"l1": (l[0], q[0]), "l2": (l[1], q[1])}
def typo(r):
    return r.choice([["shift", r.randrange(75), r.randrange(1, 57)], ["del", r.randrange(75), 1], ["ins", r.randrange(75), [ord(r.choice(plans.AL[1:]))]], ["sub", r.randrange(75), ord(r.choice("0OIl +-"))], ["case", r.randrange(75)], ["swap", r.randrange(75), 1], ["oxor", r.randrange(60), [1 << r.randrange(8)]]])
def event(S, M, x, base=0, drawn=None):
    """One event of a behaviour; base: index of the behaviour's first event in the script."""
    r = M.r; op = x["op"]; e = {"op": op, "ideal": {"exp": x["exp"], "why": x["why"], "terms": {k: json.dumps(t) for k, t in (x["out"] or {}).items()}}}
    if op != "icode": e.update(coin=x["coin"], obj=x["obj"])
    if op not in ("icode", "object"): e["ovr"] = x["ovr"]
    if op in ("encrypt", "decrypt", "confirm", "create"):
        if x["i"]:
            e["text"] = {"ref": base + x["i"] - 1, "field": x["f"]}
            if x["edit"]: e["text"]["edits"] = [typo(r)]
        else:
            t = wif(M.keys[x["lit"][1][1]], x["lit"][2], x["lit"][3]); e["text"] = t
            if x["edit"]: e["text"] = {"lit": t, "edits": [typo(r)]}
    if op in ("encrypt", "decrypt", "confirm", "icode"): e["pass"] = C(M.passes[x["pass"]])
    if op in ("decrypt", "confirm"): e["detail"] = x["detail"]
    if op == "icode":
        lot, seq = M.lots[x["lot"]] if x["lot"] else (None, None); salt = M.salts[x["salt"]] if x["salt"] else (drawn(8) if drawn else None)
        if salt is not None and lot is not None: salt = salt[:4] if r.random() < .5 else salt[:4] + list(r.randbytes(4))
        f = x["fault"]
        if f == "saltlen": salt = list(r.randbytes(r.choice([1, 2, 3, 5, 6, 7, 9, 12, 16, 32] + ([4] if lot is None else []))))
        elif f: lot, seq = M.lots["l1"]
        if f in ("lotonly", "seqonly") and salt is not None: salt = list(r.randbytes(8))
        if f == "lotonly": seq = None
        if f == "seqonly": lot = None
        if f == "range":
            if r.random() < .5: lot = r.choice([0, 1, 99999, 1000000, 1048576, 2**31 - 1])
            else: seq = r.choice([4096, 4097, 65536, 2**31 - 1])
            if salt is not None: salt = salt[:4] + list(r.randbytes(4))
        e.update(lot=NONE if lot is None else [lot], seq=NONE if seq is None else [seq], salt=NONE if salt is None else salt, form=r.choice(["bytes", "hex", "HEX"]))
    if op == "create":
        e["wtype"] = wt(x["comp"]) if x["fault"] != "wtype" else C(r.choice(["WIF", "wif ", "compressed", "wif-uncompressed", "Wif-compressed", "p2pkh"]))
        e["form"] = r.choice(["bytes", "hex", "HEX"])
        if x["fault"] == "seedlen": e["seed"] = list(r.randbytes(r.choice([1, 8, 12, 16, 23, 25, 32, 48])))
        elif x["si"]: e["seed"] = {"ref": base + x["si"] - 1, "field": "seed"}
        elif x["seed"]: e["seed"] = M.seeds[x["seed"]]
        else: e["seed"] = drawn(24) if drawn else NONE
    h = S.how()
    if op == "icode" and r.random() < .3: c, n, _, _ = S.p.pair(); h.update(coin=c, net=n)
    if op == "create" and r.random() < .3: h["deftype"] = True
    e["how"] = h
    return e
def script(P, log, drawn=None, **kw):
    S = P.script(**kw); M = Meaning(P)
    for x in log: S.ev.append(event(S, M, x, 0, drawn))
    return S

def agree(w, seed, num, length=16):
    """Behaviours played to Protocol: (name, ok, generated, distinct, output)."""
    logs, n = gen(w, num, length, seed); P = plans.Plan("agree", "quick", seed); r = P.r; out = []
    draw = lambda k: list(r.randbytes(k))
    for log in logs:
        ev = []
        for e in script(P, log, drawn=draw).ev:
            x = {"tref": 0, "tfield": "", "tpos": 0, "tamt": 0, "text": [], "sref": 0}; e.pop("how")
            t = e.get("text")
            if isinstance(t, dict):
                if "edits" in t: x.update(tpos=r.randrange(50), tamt=r.randrange(1, 57))
                if "ref" in t: x.update(tref=t["ref"] + 1, tfield=t["field"])
                else: x["text"] = t["lit"]
                e["text"] = []
            elif t is not None: x["text"] = t; e["text"] = []
            if isinstance(e.get("seed"), dict): x["sref"] = e["seed"]["ref"] + 1; e["seed"] = []
            ev.append({**x, "e": e})
        out.append({"events": ev})
    vt.ndjson(w.path("agree.nd"), out)
    lines, ok, g, full = vt.tlc(w, "Agree", vt.real_cfg("standin"), {"PLAN": w.path("agree.nd")}, workers=4)
    dis = [l for l in lines if l.startswith('"DIS')]
    if g[1] != sum(len(x["events"]) + 1 for x in out): ok = False
    return "ideal-protocol", ok and not dis, g[0] + n, g[1], "\n".join(dis[:20]) + "\n" + "\n".join(l for l in full.splitlines() if not l.startswith('"'))[-2500:]
