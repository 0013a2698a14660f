"""What each check makes the real library do: scripts of calls, per property.

Scripts only choose inputs; nothing here knows what a call should return.  A script is
{"id", "events"[, "mode", "group"]}; an event is a call as spec/Session.tla and
spec/Codecs.tla describe it, without its outcome, where "text" may also be
  {"ref": i, "field": f[, "edits": ...]}   what event i of this script returned, edited
  {"forged": id, "field": f}               what the specification made for request id
and "how" says in which of its equivalent forms the call is written.
"""
import json, random, hashlib, os, unicodedata

HERE = os.path.dirname(os.path.abspath(__file__))
COINS = [(c, n, w, a) for c, n, w, a in json.load(open(HERE + "/coins.json"))]
RIPPLE = [x for x in COINS if x[0] == "Ripple"]       # the one coin with an alphabet of its own
NETS = {}
for c, n, w, a in COINS: NETS.setdefault(c, {})[n] = (w, a)
USER = json.load(open(HERE + "/usercoins.json"))          # coins a user defines, some with the name of another coin
for c in USER: NETS[c] = {n: tuple(x) for n, x in USER[c]["nets"].items()}
UPAIRS = [(c, n, *NETS[c][n]) for c in USER for n in NETS[c]]
CORNERS = json.load(open(HERE + "/corners.json"))
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
FP = 2**256 - 2**32 - 977
NONE = [-1]
AL = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
XRP = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"

C = lambda s: [ord(c) for c in s]
def b32(n): return list(n.to_bytes(32, "big"))
def dsha(b): return hashlib.sha256(hashlib.sha256(bytes(b)).digest()).digest()
def b58(o, alpha=AL):
    n = int.from_bytes(bytes(o), "big"); s = ""
    while n: n, r = divmod(n, 58); s = alpha[r] + s
    return C(alpha[0] * (len(o) - len(bytes(o).lstrip(b"\0"))) + s)
def b58c(o, alpha=AL): return b58(list(o) + list(dsha(o)[:4]), alpha)
def wif(key, comp, prefix): return b58c(list(prefix) + list(key) + ([1] if comp else []))

WIF, WIFC = C("wif"), C("wif-compressed")
def wt(comp): return WIFC if comp else WIF

OLD = [c for c in list(range(32, 0x3000)) + list(range(0xA000, 0xD800, 7)) + list(range(0xF900, 0xFFFE)) + list(range(0x1D000, 0x1D800, 3)) + list(range(0x2F800, 0x2FA1E, 5))
       if unicodedata.ucd_3_2_0.category(chr(c)) not in ("Cn", "Cs", "Co") and unicodedata.category(chr(c)) != "Cn"]
NFC_FORMS = [  # (form, same text under canonical equivalence)
    ("\u00e9", "e\u0301"), ("\u212b", "\u00c5"), ("A\u030a", "\u00c5"), ("\u2126", "\u03a9"), ("\u1e69", "s\u0323\u0307"), ("s\u0307\u0323", "\u1e69"),
    ("\u1e0b\u0323", "d\u0323\u0307"), ("\uac00", "\u1100\u1161"), ("\uac01", "\u1100\u1161\u11a8"), ("\uac00\u11a8", "\uac01"), ("\u0958", "\u0915\u093c"),
    ("\u1f82", "\u03b1\u0313\u0300\u0345"), ("\u2adc", "\u2add\u0338"), ("\uf900", "\u8c48"), ("\U0001d15e", "\U0001d157\U0001d165"), ("\u0344", "\u0308\u0301"),
    ("\u03d2\u0301\U00010400\u0000\U0001f4a9", "\u03d3\u0000\U00010400\U0001f4a9"[:1] + "\U00010400\u0000\U0001f4a9"), ("\ufb1d", "\u05d9\u05b4"), ("o\u031b\u0323", "\u1ee3"), ("\u0226\u0304", "\u01e0"),
    ("\u09c7\u09be", "\u09cb"), ("\u30ab\u3099", "\u30ac"), ("\u0b95\u0bca", "\u0b95\u0bc6\u0bbe"), ("a\u0315\u0300\u05ae\u0062", "\u00e0\u05ae\u0315b")]
NOT_NFC = [  # different, though a careless comparison equates them
    ("\ufb01x", "fix"), ("x\u00b2", "x2"), ("\uff21bc", "Abc"), ("\u2460", "1"), ("\u1e9b\u0323", "\u1e69"), ("Stra\u00dfe", "Strasse"), ("\u0130", "i\u0307"), ("\u00a0a", " a"),
    ("abc", "Abc"), ("abc", "ABC"), ("abc", "abc "), ("abc", " abc"), ("abc", "abc\n"), ("abc", "abc\0"), ("abc", "ab\u200bc"), ("abc", "abc\ufeff"), ("e\u0301", "e"), ("\u00e9", "e"),
    ("a  b", "a b"), ("\u0391", "A"), ("\u2000", "\u2001 "), ("ABC\u0301\u0327", "ABC\u0327"), ("\uff76\uff9e", "\u30ac"), ("\u017f", "s"), ("\u2102", "C"), ("\u1100\u1161\u11a7", "\uac00"),
    ("", " "), ("", "\0"), ("a" * 64, "a" * 65), ("b" * 70 + "1", "b" * 70 + "2"), ("c" * 255 + "x", "c" * 255 + "y"), ("d" * 1100 + "x", "d" * 1100 + "y"), ("\U0001d400", "A"), ("\U0001f511a", "\U0001f511b"),
    ("\u00c5ngstr\u00f6m", "Angstrom"), ("tab\t", "tab "), ("0x41", "A"), ("\\u00e9", "\u00e9"), ("%20", " "), ("caf\u00c3\u00a9", "caf\u00e9"), ("61626364", "abcd")]

def odd_octets(r, n):
    """Octets with a pattern, which a check of plausibility could take for a mistake."""
    k = r.randrange(9); x = r.randbytes; h = n // 2; e = n % 2
    if n < 2: return list(x(n))
    if k == 0: return list(x(h)) * 2 + list(x(e))                                # halves alike
    if k == 1: a = list(x(h)); return a + list(x(e)) + a[::-1]                       # a palindrome
    if k == 2: return [r.choice([0, 1, 0x20, 0x30, 0x41, 0x7f, 0x80, 0xff])] * n
    if k == 3: a = r.randrange(256); d = r.choice([1, 255]); return [(a + d * i) % 256 for i in range(n)]
    if k == 4: a = list(x(h)); return a + list(x(e)) + [255 - v for v in a]            # halves complement each other
    if k == 5: return [0] * (n - 1) + [r.randrange(1, 256)]
    if k == 6: return [r.randrange(1, 256)] + [0] * (n - 1)
    if k == 7: a = [r.randrange(256), r.randrange(256)]; return (a * n)[:n]
    a = list(x(n)); a[r.randrange(n)] = 0; return a
class Plan:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.r = prop, tier, random.Random("%s %s" % (prop, seed))
        self.deep = tier == "thorough"
        self.scripts, self.real, self.reqs, self.runs = [], [], [], []
        self.nid = 0; self.target = self.scripts
    def n(self, quick, thorough=None):
        t = thorough if thorough is not None else 8 * quick
        if self.deep: return t
        return min(t, 3 * quick) if 10 <= quick <= 200 and self.target is not self.real else quick
    def script(self, **kw):
        self.nid += 1
        s = {"id": self.nid, "events": [], **kw}; self.target.append(s)
        return S(self, s)
    def req(self, **q):
        q.setdefault("edits", []); q["id"] = len(self.reqs) + 1
        q["kdf"] = "scrypt" if self.target is self.real else "standin"
        self.reqs.append(q); return q["id"]
    # ------------------------------------------------------------- choices
    def pair(self): return self.r.choice(RIPPLE if self.r.random() < .03 else COINS)
    def key(self):
        r = self.r
        return r.choice([lambda: b32(r.randrange(1, N))] * 6 + [lambda: b32(r.randrange(1, 2**(8 * r.randrange(1, 32)))), lambda: b32(N - r.randrange(1, 2**(8 * r.randrange(1, 16)))),
                         lambda: b32(1 << r.randrange(256)) if True else None, lambda: b32(r.randrange(1, 2**r.randrange(1, 128)) << 128)])()
    def pw(self):
        r = self.r; k = r.randrange(12)
        if k < 5: return C("".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGH 0123456789!?-") for _ in range(r.randrange(1, 24))))
        if k < 8: return [r.choice(OLD) for _ in range(r.randrange(1, 9))]
        if k == 8: return C(r.choice(r.choice(NFC_FORMS)) + r.choice(r.choice(NFC_FORMS)))
        if k == 9: return C("x" * r.randrange(60, 70) + str(r.random()))
        if k == 10: return C(r.choice(["", "\0", " ", "\n", "a\0b", "\0" * 65, "\U0001f600" * 20, "TestingOneTwoThree", "\u03d2\u0301\u0000\U00010400\U0001f4a9", "Satoshi", "\u039c\u039f\u039b\u03a9\u039d \u039b\u0391\u0392\u0395"]))
        return C("".join(chr(r.randrange(1, 128)) for _ in range(r.randrange(1, 40))))
    def secret(self, n=14):
        return C("".join(self.r.choice("bcdfghjkmnpqvwxyz0123456789") for _ in range(n)))
    def oct(self, n):
        """Random octets; now and then of a kind that something on the way could take for something else."""
        r = self.r; k = r.randrange(27) if n else 99; x = r.randbytes
        if 24 <= k < 27 and n > 1: return odd_octets(r, n)
        if k == 0: return [r.choice(b"0123456789abcdefABCDEF") for _ in range(n)]        # ASCII that reads as hex text
        if k == 1: return [r.choice(b"0123456789") for _ in range(n)]
        if k == 2: return [r.randrange(32, 127) for _ in range(n)]
        if k == 3: return [r.choice(b" \t\r\n\0")] + list(x(n - 1))
        if k == 4: return list(x(n - 1)) + [r.choice(b" \t\r\n\0")]
        if k == 5: j = r.randrange(1, n + 1); return [0] * j + list(x(n - j))
        if k == 6: j = r.randrange(1, n + 1); return list(x(n - j)) + [0] * j
        if k == 7: return [r.choice([0x80, 0xc3, 0xff, 0xe2])] * n if r.random() < .3 else list(("\u00e9\u4e2d\U0001f511" * n).encode()[:n])
        return list(x(n))
    def lots(self): 
        r = self.r
        return ([r.choice([100000, 999999, 199999, 262143, 262144, 524287, 524288, r.randrange(100000, 1000000), r.randrange(100000, 1000000)])],
                [r.choice([0, 1, 255, 256, 4095, 4094, r.randrange(4096), r.randrange(4096)])])
    def owner(self, lots=None):
        """(lot, seq, salt)"""
        r = self.r
        if lots is None: lots = r.random() < .5
        if not lots: return NONE, NONE, self.oct(8)
        l, s = self.lots(); return l, s, self.oct(r.choice([4, 4, 8]))
    def corners(self, kind):
        tbl = CORNERS["scrypt" if self.target is self.real else "standin"]
        return [(k, v) for k, v in sorted(tbl.items()) if v["kind"] == kind]
    def sample(self, xs, quick, thorough=None):
        xs = list(xs); k = self.n(quick, thorough)
        return xs if k >= len(xs) else self.r.sample(xs, k)

class S:
    """One script."""
    def __init__(self, plan, s): self.p, self.s, self.ev = plan, s, s["events"]
    def add(self, **e):
        if e["op"] in ("addrenc", "addrdec", "b58enc", "b58dec", "wifenc", "wifdec", "hash") and self.p.r.random() < .06: e["how"] = {**e.get("how", {}), "own": True}
        self.ev.append(e); return len(self.ev) - 1
    def how(self, h=None):
        r = self.p.r; d = {}
        if r.random() < .3: d["kw"] = False
        if r.random() < .3: d["none"] = True
        if r.random() < .3: d["expl"] = True
        if r.random() < .4: d["obj"] = "shared"
        elif r.random() < .08: d["own"] = True
        if h: d.update(h)
        return d
    def nets(self, net, coin):
        """The effective network, said by the object or by an override."""
        r = self.p.r; o = list(NETS[coin])
        if r.random() < .3: return {"obj": r.choice(o), "ovr": net}
        return {"obj": net, "ovr": ""}
    def encrypt(self, coin, net, text, pw, how=None, **kw):
        return self.add(op="encrypt", coin=coin, **{**self.nets(net, coin), **kw}, text=text, **{"pass": pw}, how=self.how(how))
    def decrypt(self, coin, net, text, pw, detail=None, how=None, **kw):
        d = self.p.r.random() < .5 if detail is None else detail
        return self.add(op="decrypt", coin=coin, **{**self.nets(net, coin), **kw}, text=text, **{"pass": pw}, detail=d, how=self.how(how))
    def confirm(self, coin, net, text, pw, detail=None, how=None, **kw):
        d = self.p.r.random() < .5 if detail is None else detail
        return self.add(op="confirm", coin=coin, **{**self.nets(net, coin), **kw}, text=text, **{"pass": pw}, detail=d, how=self.how(how))
    def icode(self, pw, lot=NONE, seq=NONE, salt=NONE, form=None, how=None):
        r = self.p.r; h = self.how(how)
        if r.random() < .3: c, n, _, _ = self.p.pair(); h.update(coin=c, net=n)
        return self.add(op="icode", **{"pass": pw}, lot=lot, seq=seq, salt=salt, form=form or r.choice(["bytes", "hex", "HEX"]), how=h)
    def create(self, coin, net, text, wtype, seed=NONE, form=None, how=None, **kw):
        r = self.p.r; h = self.how(how)
        if r.random() < .3: h["deftype"] = True
        return self.add(op="create", coin=coin, **{**self.nets(net, coin), **kw}, text=text, wtype=wtype, seed=seed, form=form or r.choice(["bytes", "hex", "HEX"]), how=h)
    def object(self, coin, net): return self.add(op="object", coin=coin, obj=net)
    def ref(self, i, field, *edits): return {"ref": i, "field": field, "edits": list(edits)} if edits else {"ref": i, "field": field}
    # forged records, with provenance
    def fplain(self, coin, net, key, comp, pw):
        q = self.p.req(kind="plain", coin=coin, net=net, key=key, comp=comp, **{"pass": pw})
        self.add(op="forge", kind="plain", coin=coin, net=net, key=key, comp=comp, req=q, **{"pass": pw})
        return {"forged": q, "field": "enc"}
    def fcode(self, pw, lot, seq, salt):
        q = self.p.req(kind="code", lot=lot, seq=seq, salt=salt, **{"pass": pw})
        self.add(op="forge", kind="code", lot=lot, seq=seq, salt=salt, req=q, **{"pass": pw})
        return {"forged": q, "field": "code"}
    def fec(self, coin, net, pw, lot, seq, salt, comp, seed):
        code = self.fcode(pw, lot, seq, salt)
        q = self.p.req(kind="ec", field="", coin=coin, net=net, lot=lot, seq=seq, salt=salt, comp=comp, seed=seed, **{"pass": pw})
        self.add(op="forge", kind="ec", coin=coin, net=net, text=code, comp=comp, seed=seed, req=q)
        return code, {"forged": q, "field": "enc"}, {"forged": q, "field": "cfrm"}
    # families
    def plain_trip(self, coin, net, key, comp, pw):
        w = NETS[coin][net][0]
        i = self.encrypt(coin, net, wif(key, comp, w), pw)
        self.decrypt(coin, net, self.ref(i, "enc"), pw, detail=False)
        self.decrypt(coin, net, self.ref(i, "enc"), pw, detail=True)
        return i
    def ec_trip(self, coin, net, pw, lot, seq, salt, comp, seed, confirm=True, decrypt=True, both=True):
        c = self.icode(pw, lot, seq, salt)
        i = self.create(coin, net, self.ref(c, "code"), wt(comp), seed)
        if confirm:
            self.confirm(coin, net, self.ref(i, "cfrm"), pw, detail=True)
            if both: self.confirm(coin, net, self.ref(i, "cfrm"), pw, detail=False)
        if decrypt:
            self.decrypt(coin, net, self.ref(i, "enc"), pw, detail=True)
            if both: self.decrypt(coin, net, self.ref(i, "enc"), pw, detail=False)
        return c, i

EDGE_KEYS = [b32(k) for k in (1, 2, 3, 255, 256, 2**64, 2**128 - 1, 2**128, 2**128 + 1, 2**248, 2**255, N - 1, N - 2, (N - 1) // 2, (N + 1) // 2, N - 2**128)] + [b32((1 << 8 * k) * 0x81) for k in (0, 1, 7, 15, 16, 17, 24, 30)]
EDGE_PW = ["", "\0", "a", "TestingOneTwoThree", "x" * 64, "x" * 65, "y" * 1000, "\u03d2\u0301\u0000\U00010400\U0001f4a9", "\U0001f600", " lead", "trail ", "\t\r\n", "\u212b\u2126", "\uac00\u11a8", "\u00e9", "e\u0301", "caf\u00e9 \u00df \u0416 \u4e2d", "%s{0}\\n'\"", "\u2028", "\ufeffbom"]

# -------------------------------------------- passphrases that choose what the stand-in KDF gives
def _sbox():
    p = q = 1; s = [0] * 256
    while True:
        p ^= (p << 1) ^ (0x11B if p & 128 else 0); p &= 255
        q ^= q << 1; q ^= q << 2; q ^= q << 4; q &= 255
        if q & 128: q ^= 9
        s[p] = q ^ (q << 1 | q >> 7) & 255 ^ (q << 2 | q >> 6) & 255 ^ (q << 3 | q >> 5) & 255 ^ (q << 4 | q >> 4) & 255 ^ 0x63
        if p == 1: break
    s[0] = 0x63; return s
SBOX = _sbox(); ISBOX = [SBOX.index(i) for i in range(256)]
def _gm(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = (a << 1) ^ (0x11B if a & 128 else 0); b >>= 1
    return r
def aes_dec(key, block):
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]; rc = 1
    for i in range(8, 60):
        t = w[i - 1]
        if i % 8 == 0: t = [SBOX[x] for x in t[1:] + t[:1]]; t[0] ^= rc; rc *= 2
        elif i % 8 == 4: t = [SBOX[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    s = list(block); add = lambda s, n: [a ^ b for a, b in zip(s, sum(w[4 * n:4 * n + 4], []))]; s = add(s, 14)
    for n in range(13, -1, -1):
        s = [ISBOX[s[(4 * ((c - r) % 4)) + r]] for c in range(4) for r in range(4)]; s = add(s, n)
        if n: s = [_gm(s[4 * c + r], 14) ^ _gm(s[4 * c + (r + 1) % 4], 11) ^ _gm(s[4 * c + (r + 2) % 4], 13) ^ _gm(s[4 * c + (r + 3) % 4], 9) for c in range(4) for r in range(4)]
    return s
def steer(octets): return C("kdf " + "".join("--" if o is None else "%02x" % o for o in octets))
xor = lambda a, b: [x ^ y for x, y in zip(a, b)]
def zeros(r, n):
    """n octets with zeros at an end or in the middle."""
    j = r.choice([1, 1, 2, 3, n // 2, n - 1, n]); o = [r.randrange(1, 256) for _ in range(n - j)]; k = r.randrange(3)
    return [0] * j + o if k == 0 else o + [0] * j if k == 1 else o[:(n - j) // 2] + [0] * j + o[(n - j) // 2:]
def steered_plain(P):
    """(key, passphrase): the octets on the way are zero, or all ones, in some place."""
    r = P.r; out = []
    for half in (0, 1):
        for _ in range(P.n(14, 200)):
            k = P.key(); z = zeros(r, 16); aes = r.choice([[None] * 32, [0] * 32, [255] * 32, [0] * 16 + P.oct(16), P.oct(16) + [0] * 16, zeros(r, 32)])
            o = xor(k[16 * half:16 * half + 16], z); d = [None] * 32; d[16 * half:16 * half + 16] = o
            out.append((k, steer(d + aes)))                    # the XORed half
            aes = r.choice([P.oct(32), [0] * 32, zeros(r, 32)]); e = zeros(r, 16); d = [None] * 32; d[16 * half:16 * half + 16] = xor(aes_dec(aes, e), k[16 * half:16 * half + 16])
            out.append((k, steer(d + aes)))                    # the encrypted half
            d = [None] * 32; d[16 * half:16 * half + 16] = r.choice([[0] * 16, zeros(r, 16), [255] * 16]); out.append((k, steer(d + [None] * 32)))
    for k in (P.key(), EDGE_KEYS[0], EDGE_KEYS[11]):
        a = P.oct(32); out += [(k, steer(list(k) + a)), (k, steer([0] * 64)), (k, steer([255] * 64)), (k, steer(xor(k, [255] * 32) + a)), (k, steer(xor(aes_dec(a, [0] * 16) * 2, k) + a)), (k, steer(k + k)), (k, steer((k[16:] + k[:16]) + a)), (k, steer(a + a))]
    return out
FACTORS = [1, 2, 3, 255, 256, N - 1, N - 2, (N - 1) // 2, (N + 1) // 2, 2**128, 2**128 - 1, 2**248, 2**255]; NOFACTORS = [0, N, N + 1, FP, 2**256 - 1, 2**256 - 2**100]
def steered_ec(P):
    """(passphrase, lot, seq, salt): the pass factor, or what it is made of, is unusual."""
    r = P.r; out = []
    for f in FACTORS + [int.from_bytes(bytes(zeros(r, 32)), "big") % N or 1 for _ in range(P.n(10, 200))]: out.append((steer(b32(f)), NONE, NONE, P.oct(8)))
    for k in range(P.n(10, 100)): l, q = P.lots(); out.append((steer(zeros(r, 32) if k else [0] * 32), l, q, P.oct(r.choice([4, 8]))))
    for v in PTKEYS: out.append((steer(v), NONE, NONE, P.oct(8)))
    return out

def plain_family(P, coins, keys, pws, corners):
    for c, n, w, a in coins:
        comp = P.r.random() < .5
        P.script().plain_trip(c, n, P.key(), comp, P.pw())
        if P.deep or P.r.random() < .3: P.script().plain_trip(c, n, P.key(), not comp, P.pw())
    for k in keys: P.script().plain_trip(*P.pair()[:2], k, P.r.random() < .5, P.pw())
    for x in pws: P.script().plain_trip(*P.pair()[:2], P.key(), P.r.random() < .5, C(x))
    for _, v in corners: P.script().plain_trip("Bitcoin", "mainnet", v["key"], v["comp"], v["pass"])
    if corners:
        for k, x in steered_plain(P): P.script().plain_trip(*P.pair()[:2], k, P.r.random() < .5, x)
def ec_family(P, coins, pws, corners, **kw):
    for c, n, w, a in coins: P.script().ec_trip(c, n, P.pw(), *P.owner(), P.r.random() < .5, P.oct(24), **kw)
    for x in pws: P.script().ec_trip(*P.pair()[:2], C(x), *P.owner(), P.r.random() < .5, P.oct(24), **kw)
    for _, v in corners: P.script().ec_trip("Bitcoin", "mainnet", v["pass"], v["lot"], v["seq"], v["salt"], v["comp"], v["seed"], **kw)
    for salt in ([0] * 8, [255] * 8, [0] * 7 + [1], [1] + [0] * 7, [0] * 4):
        for seed in ([0] * 24, [255] * 24, [0] * 23 + [7], [0] * 16 + [9] * 8):
            lot, seq = P.lots() if len(salt) == 4 or P.r.random() < .4 else (NONE, NONE)
            P.script().ec_trip(*P.pair()[:2], P.pw(), lot, seq, salt, P.r.random() < .5, seed, **kw)
    for o in steered_ec(P): P.script().ec_trip(*P.pair()[:2], *o, P.r.random() < .5, P.oct(24), **kw)
def main_coins(P, k): return P.sample(COINS, k, len(COINS))

def real_some(P, plain, ec):
    """The same families with the real scrypt."""
    P.target = P.real
    for i in range(P.n(plain)):
        c, n, _, _ = P.pair()
        s = P.script(); w = NETS[c][n][0]; k, comp, pw = P.key(), P.r.random() < .5, P.pw()
        j = s.encrypt(c, n, wif(k, comp, w), pw); s.decrypt(c, n, s.ref(j, "enc"), pw, detail=i % 2 == 0)
    for i in range(P.n(ec)):
        c, n, _, _ = P.pair(); P.script().ec_trip(c, n, P.pw(), *P.owner(), P.r.random() < .5, P.oct(24), both=False)
    if plain:
        for _, v in P.sample(P.corners("plain"), 6, 40): P.script().plain_trip("Bitcoin", "mainnet", v["key"], v["comp"], v["pass"])
    if ec:
        for _, v in P.sample(P.corners("ec"), 6, 60): P.script().ec_trip("Bitcoin", "mainnet", v["pass"], v["lot"], v["seq"], v["salt"], v["comp"], v["seed"], both=False)
    P.target = P.scripts

# --------------------------------------------------------------------------- C01, C02
def c01(P):
    plain_family(P, COINS, EDGE_KEYS, EDGE_PW, P.corners("plain"))
    for _ in range(P.n(60, 2500)): P.script().plain_trip(*P.pair()[:2], P.key(), P.r.random() < .5, P.pw())
    real_some(P, 4, 0)
def foreign_plain(P, c, n, key, comp, pw):
    s = P.script(); t = s.fplain(c, n, key, comp, pw)
    s.decrypt(c, n, t, pw, detail=True); s.decrypt(c, n, t, pw, detail=False)
def c02(P):
    plain_family(P, COINS, EDGE_KEYS[::2], EDGE_PW[::2], P.corners("plain"))
    for c, n, _, _ in main_coins(P, 60): foreign_plain(P, c, n, P.key(), P.r.random() < .5, P.pw())
    for k in EDGE_KEYS: foreign_plain(P, *P.pair()[:2], k, P.r.random() < .5, P.pw())
    for x in EDGE_PW: foreign_plain(P, *P.pair()[:2], P.key(), P.r.random() < .5, C(x))
    for _, v in P.corners("plain"): foreign_plain(P, "Bitcoin", "mainnet", v["key"], v["comp"], v["pass"])
    for k, x in steered_plain(P): foreign_plain(P, *P.pair()[:2], k, P.r.random() < .5, x)
    for _ in range(P.n(20, 1500)): foreign_plain(P, *P.pair()[:2], P.key(), P.r.random() < .5, P.pw())
    real_some(P, 4, 0)
    P.target = P.real
    for _ in range(P.n(3, 30)): foreign_plain(P, *P.pair()[:2], P.key(), P.r.random() < .5, P.pw())
    P.target = P.scripts

# ---------------------------------------------------------------------- C03 .. C06
def drawn_ec(P, c, n):
    """Nothing explicit: the library draws salt and seed."""
    s = P.script(); pw = P.pw(); lot, seq = P.lots() if P.r.random() < .5 else (NONE, NONE); comp = P.r.random() < .5
    i = s.icode(pw, lot, seq, NONE); j = s.create(c, n, s.ref(i, "code"), wt(comp), NONE)
    s.confirm(c, n, s.ref(j, "cfrm"), pw); s.decrypt(c, n, s.ref(j, "enc"), pw)
    k = s.create(c, n, s.ref(i, "code"), wt(not comp), NONE)
    s.decrypt(c, n, s.ref(k, "enc"), pw, detail=True); s.confirm(c, n, s.ref(k, "cfrm"), pw, detail=True)
def c03(P):
    ec_family(P, main_coins(P, 90), EDGE_PW, P.corners("ec"), confirm=False)
    for c, n, _, _ in main_coins(P, 40): drawn_ec(P, c, n)
    for _ in range(P.n(20, 1500)): P.script().ec_trip(*P.pair()[:2], P.pw(), *P.owner(), P.r.random() < .5, P.oct(24), confirm=False)
    # a code made by another implementation, used by the library's printer
    for _ in range(P.n(15, 300)): foreign_code(P)
    for c, n, *_ in RIPPLE: drawn_ec(P, c, n); P.script().ec_trip(c, n, P.pw(), *P.owner(), P.r.random() < .5, P.oct(24))
    real_some(P, 0, 4)
def foreign_code(P):
    s = P.script(); pw = P.pw(); c, n, _, _ = P.pair(); o = P.owner(); comp = P.r.random() < .5
    t = s.fcode(pw, *o); j = s.create(c, n, t, wt(comp), P.oct(24))
    s.decrypt(c, n, s.ref(j, "enc"), pw, detail=True); s.confirm(c, n, s.ref(j, "cfrm"), pw, detail=True)
def foreign_ec(P, c, n, pw, lot, seq, salt, comp, seed):
    s = P.script(); code, enc, cfrm = s.fec(c, n, pw, lot, seq, salt, comp, seed)
    s.decrypt(c, n, enc, pw, detail=True); s.confirm(c, n, cfrm, pw, detail=True)
    s.decrypt(c, n, enc, pw, detail=False); s.confirm(c, n, cfrm, pw, detail=False)
    s.create(c, n, code, wt(comp), seed)
def c04(P):
    ec_family(P, main_coins(P, 50), EDGE_PW[::2], P.corners("ec"), both=False)
    for c, n, _, _ in main_coins(P, 40): foreign_ec(P, c, n, P.pw(), *P.owner(), P.r.random() < .5, P.oct(24))
    for x in EDGE_PW[1::2]: foreign_ec(P, *P.pair()[:2], C(x), *P.owner(), P.r.random() < .5, P.oct(24))
    for _, v in P.corners("ec"): foreign_ec(P, "Bitcoin", "mainnet", v["pass"], v["lot"], v["seq"], v["salt"], v["comp"], v["seed"])
    for o in P.sample(steered_ec(P), 20, 300): foreign_ec(P, *P.pair()[:2], *o, P.r.random() < .5, P.oct(24))
    for _ in range(P.n(10, 800)): foreign_ec(P, *P.pair()[:2], P.pw(), *P.owner(), P.r.random() < .5, P.oct(24))
    for _ in range(P.n(10, 300)): foreign_code(P)
    real_some(P, 0, 3)
    P.target = P.real
    for _ in range(P.n(2, 25)): foreign_ec(P, *P.pair()[:2], P.pw(), *P.owner(), P.r.random() < .5, P.oct(24))
    P.target = P.scripts
def c05(P):
    crooked(P, enc=False); bad_points(P)
    ec_family(P, main_coins(P, 60), EDGE_PW[::2], P.corners("ec"))
    for c, n, _, _ in main_coins(P, 30): drawn_ec(P, c, n)
    # one intermediate code, several keys: each confirmation code stands for its own key only
    for _ in range(P.n(25, 500)):
        s = P.script(); pw = P.pw(); c, n, _, _ = P.pair(); i = s.icode(pw, *P.owner())
        js = [s.create(c, n, s.ref(i, "code"), wt(P.r.random() < .5), P.oct(24)) for _ in range(3)]
        for j in js: s.confirm(c, n, s.ref(j, "cfrm"), pw); s.decrypt(c, n, s.ref(j, "enc"), pw)
        for j in js: s.confirm(c, n, s.ref(j, "cfrm"), P.secret(), detail=P.r.random() < .5)
        # octets nobody would issue, with a right checksum: the marker and the encrypted point
        for b in range(8): s.confirm(c, n, s.ref(js[0], "cfrm", ["rxor", 18, [1 << b]]), pw)
        for x in [P.r.randrange(1, 256) for _ in range(3)]: s.confirm(c, n, s.ref(js[1], "cfrm", ["rxor", 18, [x]]), pw); s.confirm(c, n, s.ref(js[1], "cfrm", ["rxor", P.r.randrange(5, 51), [x]]), pw)
    for c, n, *_ in RIPPLE: drawn_ec(P, c, n); P.script().ec_trip(c, n, P.pw(), *P.owner(), P.r.random() < .5, P.oct(24))
    real_some(P, 0, 4)
LOTS = [100000, 100001, 131071, 131072, 199999, 262143, 262144, 262145, 524287, 524288, 524289, 600000, 786431, 786432, 917504, 999998, 999999]
SEQS = [0, 1, 2, 15, 16, 255, 256, 257, 1023, 1024, 2047, 2048, 4080, 4094, 4095]
def c06(P):
    r = P.r
    def use(lot, seq, salt):
        s = P.script(); pw = P.pw(); c, n, _, _ = P.pair(); comp = r.random() < .5
        i = s.icode(pw, [lot], [seq], salt); j = s.create(c, n, s.ref(i, "code"), wt(comp), P.oct(24))
        s.confirm(c, n, s.ref(j, "cfrm"), pw, detail=True); s.decrypt(c, n, s.ref(j, "enc"), pw, detail=True)
    for l in LOTS:
        for q in (SEQS if P.deep else [0, 4095] + r.sample(SEQS, 3)): use(l, q, r.choice([NONE, P.oct(4), P.oct(8)]))
    for q in SEQS: use(r.choice(LOTS), q, P.oct(4)); use(r.randrange(100000, 1000000), q, NONE)
    for _ in range(P.n(40, 1500)): use(r.randrange(100000, 1000000), r.randrange(4096), r.choice([NONE, P.oct(4), P.oct(8), [0] * 4]))
    bad = [(l, q) for l in (-2, 0, 1, 99999, 1000000, 1000001, 1048575, 1048576, 2**31 - 1, 10**6 + 100000) for q in (0, 7, 4095)] + \
          [(l, q) for l in (100000, 999999, 555555) for q in (-2, 4096, 4097, 8191, 65536, 2**31 - 1)] + [(0, 0), (-100000, 5), (99999, 4096), (1000000, 0)]
    for _ in range(4):           # two wrongs that make a number which looks right
        l, q = r.randrange(100000, 1000000), r.randrange(1, 4096); n = l * 4096 + q
        bad += [(l, n), (n, q), (n, n), (q, l), (l, l), (q, q), (l + 2**20, q), (l - 2**20, q), (l, q + 4096), (l, q - 4096), (l + 2**32, q), (l, q + 2**32), (l - 1, q + 4096), (l + 1, q - 4096), (0, n), (n, 0), (-l, -q), (-l, q), (l, -q), (l * 4096, q), (l, q * 4096), (l * 10, q), (l // 10 if l < 10**6 else 1, q)]
    for l, q in bad:
        for salt in (NONE, P.oct(4), P.oct(8)): P.script().icode(P.pw(), [l], [q], salt)
    for l in LOTS[::3]:
        for salt in (NONE, P.oct(8), P.oct(4)):
            P.script().icode(P.pw(), [l], NONE, salt)
    for q in SEQS[::2]:
        for salt in (NONE, P.oct(8), P.oct(4)):
            P.script().icode(P.pw(), NONE, [q], salt)
    # and without either: none is reported
    for _ in range(P.n(20, 300)):
        s = P.script(); pw = P.pw(); c, n, _, _ = P.pair()
        i = s.icode(pw, NONE, NONE, r.choice([NONE, P.oct(8)])); j = s.create(c, n, s.ref(i, "code"), wt(r.random() < .5), P.oct(24))
        s.confirm(c, n, s.ref(j, "cfrm"), pw, detail=True); s.decrypt(c, n, s.ref(j, "enc"), pw, detail=True)
    # foreign records of every kind
    for _ in range(P.n(15, 300)):
        l, q = P.lots(); c, n, _, _ = P.pair(); foreign_ec(P, c, n, P.pw(), l, q, P.oct(4), r.random() < .5, P.oct(24))
    P.target = P.real
    for l, q in ((100000, 0), (999999, 4095)) + (((100000, 4095), (999999, 0), (524288, 2048)) if P.deep else ()): use(l, q, P.oct(4))
    P.target = P.scripts

def crooked(P, enc=True, cfrm=True):
    """Records that hold together except that the address hash is that of no key, or of nearly this one."""
    r = P.r; masks = [[0] * i + [1 << r.randrange(8)] + [0] * (3 - i) for i in range(4)] + [[0, 0, 0, 255], [255, 0, 0, 0], [0, 0, 255, 255], [255, 255, 0, 0], [0, 255, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [128, 0, 0, 0]]
    for m in masks if P.deep else masks[:4] + r.sample(masks[4:], 4):
        for comp in (False, True):
            c, n, _, _ = P.pair(); pw = P.pw(); s = P.script()
            if enc: s.decrypt(c, n, {"forged": P.req(kind="plain", coin=c, net=n, key=P.key(), comp=comp, ahx=m, **{"pass": pw}), "field": "enc"}, pw)
            for lots in (False, True):
                l, q, t = P.owner(lots); x = P.req(kind="ec", field="", coin=c, net=n, lot=l, seq=q, salt=t, comp=comp, seed=P.oct(24), ahx=m, **{"pass": pw})
                if enc: s.decrypt(c, n, {"forged": x, "field": "enc"}, pw)
                if cfrm: s.confirm(c, n, {"forged": x, "field": "cfrm"}, pw)
def bad_points(P):
    """Confirmation codes whose point is none, or another key's."""
    r = P.r; offx = [x for x in range(1, 60) if pow(x**3 + 7, (FP - 1) // 2, FP) != 1]; pts = [[p] + b32(x) for p in (2, 3) for x in (offx[0], offx[5], 0, FP, FP + 1, 2**256 - 1, FP - 1)] + [[p] + b32(G[0]) for p in (0, 1, 4, 5, 6, 7, 0x82, 2, 3)] + [[0] * 33, [255] * 33]
    for k, pb in enumerate(pts):
        c, n, _, _ = P.pair(); pw = P.pw(); l, q, t = P.owner(k % 2 == 0)
        x = P.req(kind="ec", field="", coin=c, net=n, lot=l, seq=q, salt=t, comp=r.random() < .5, seed=P.oct(24), pb=pb, **{"pass": pw})
        s = P.script(); s.confirm(c, n, {"forged": x, "field": "cfrm"}, pw, detail=True); s.confirm(c, n, {"forged": x, "field": "cfrm"}, pw, detail=False); s.confirm(c, n, {"forged": x, "field": "cfrm"}, P.secret())
# --------------------------------------------------------------------------------- C07
def near(P, pw):
    """Passphrases a user could have typed instead."""
    r = P.r; s = "".join(map(chr, pw)); out = [s + " ", " " + s, s + "\0", s + "\n", s.swapcase(), s[:-1], s[1:], s + s, s.upper(), s.lower(), s.strip(), s[::-1], "", "wrong", "0", "None",
                                              unicodedata.normalize("NFKC", s), unicodedata.normalize("NFKD", s)]
    if s: i = r.randrange(len(s)); out.append(s[:i] + chr((ord(s[i]) ^ 1) or 1) + s[i + 1:]); out.append(s[:i] + s[i] + s[i:])
    if len(s) > 1: j = r.randrange(len(s) - 1); out += [s[:j] + s[j + 1] + s[j] + s[j + 2:], s[1:] + s[:1], "".join(sorted(s)), s[:-2] + s[-1] + s[-2]]
    seen = {unicodedata.normalize("NFC", s)}; res = []
    for x in out:
        k = unicodedata.normalize("NFC", x)
        if k not in seen: seen.add(k); res.append(C(x))
    r.shuffle(res); return res
def c07(P):
    r = P.r; crooked(P)
    for _ in range(P.n(60, 1200)):
        s = P.script(); pw = P.pw(); c, n, w, _ = P.pair(); comp = r.random() < .5
        t = s.ref(s.encrypt(c, n, wif(P.key(), comp, w), pw), "enc") if r.random() < .7 else s.fplain(c, n, P.key(), comp, pw)
        for x in near(P, pw)[:6]: s.decrypt(c, n, t, x)
        s.decrypt(c, n, t, pw)
    for _ in range(P.n(60, 1200)):
        s = P.script(); pw = P.pw(); c, n, w, _ = P.pair(); comp = r.random() < .5; o = P.owner()
        if r.random() < .7: _, j = s.ec_trip(c, n, pw, *o, comp, P.oct(24), both=False); e, f = s.ref(j, "enc"), s.ref(j, "cfrm")
        else: _, e, f = s.fec(c, n, pw, *o, comp, P.oct(24))
        for x in near(P, pw)[:5]: s.decrypt(c, n, e, x); s.confirm(c, n, f, x)
    # wrong passphrases that compute something that is no key, or nearly the right one
    for comp in (False, True):
        for right in (P.pw(), None, None):
            s = P.script(); c, n, w, _ = P.pair(); key = P.key(); a = P.oct(32); d = P.oct(32); pw = right or steer(d + a)
            t = s.ref(s.encrypt(c, n, wif(key, comp, w), pw), "enc") if r.random() < .6 else s.fplain(c, n, key, comp, pw)
            if not right:      # the same AES key: what comes out is chosen
                for v in NOFACTORS + FACTORS[:6] + [int.from_bytes(bytes(key), "big") ^ 1 << r.randrange(256), N - int.from_bytes(bytes(key), "big")]:
                    if b32(v % 2**256) != key: s.decrypt(c, n, t, steer(xor(xor(d, key), b32(v)) + a), how={"obj": "shared"})
            for x in ([0] * 64, [255] * 64, d + [None] * 32, [None] * 32 + a): s.decrypt(c, n, t, steer(x))
            s.decrypt(c, n, t, pw)
    for k in range(P.n(4, 30)):
        s = P.script(); f = r.choice(FACTORS[1:]); pw = r.choice([P.pw(), steer(b32(f))]); c, n, w, _ = P.pair(); comp = r.random() < .5; o = P.owner(k % 3 == 2)
        if k % 2: _, j = s.ec_trip(c, n, pw, *o, comp, P.oct(24), both=False); e, cf = s.ref(j, "enc"), s.ref(j, "cfrm")
        else: _, e, cf = s.fec(c, n, pw, *o, comp, P.oct(24))
        for v in NOFACTORS + FACTORS + [N - f, f + 1]:
            if v != f: d = r.random() < .5; s.decrypt(c, n, e, steer(b32(v)), detail=d); s.confirm(c, n, cf, steer(b32(v)), detail=not d)
    # letters exchanged, right after the right passphrase and before it, in one process
    for k in range(P.n(8, 80)):
        s = P.script(); pw = r.choice([C("correct horse"), [x for x in P.secret(8) if x < 128] + C("ab9"), C("Abc-123"), C("\u00e9t\u00e9s")]); c, n, w, _ = P.pair()
        if k % 2: t = s.ref(s.encrypt(c, n, wif(P.key(), k % 4 == 1, w), pw), "enc"); f = None
        else: _, j = s.ec_trip(c, n, pw, *P.owner(k % 4 == 2), True, P.oct(24), both=False); t, f = s.ref(j, "enc"), s.ref(j, "cfrm")
        for rnd in range(2):
            for x in [pw] + [pw[:i] + [pw[i + 1], pw[i]] + pw[i + 2:] for i in r.sample(range(len(pw) - 1), 2) if pw[i] != pw[i + 1]] + [pw[::-1], sorted(pw)]:
                s.decrypt(c, n, t, x)
                if f: s.confirm(c, n, f, x)
    # pass factors that agree modulo the order, or up to their sign
    for k in range(P.n(4, 16)):
        f = [1, 5, r.randrange(2, 2**256 - N), 2**256 - N - 1][k % 4]; s = P.script(); c, n, w, _ = P.pair()
        _, j = s.ec_trip(c, n, steer(b32(f)), NONE, NONE, P.oct(8), k % 2 == 0, P.oct(24), both=False)
        for v in (f + N, N - f, f): s.decrypt(c, n, s.ref(j, "enc"), steer(b32(v))); s.confirm(c, n, s.ref(j, "cfrm"), steer(b32(v)))
    # volume: whatever a wrong passphrase computes on the way
    for k in range(P.n(6, 30)):
        s = P.script(); pw = P.secret(); c, n, w, _ = P.pair(); comp = k % 2 == 0
        t = s.encrypt(c, n, wif(P.key(), comp, w), pw); _, j = s.ec_trip(c, n, pw, *P.owner(k % 3 == 0), comp, P.oct(24), both=False)
        for _ in range(P.n(40, 300)):
            x = P.secret(6); s.decrypt(c, n, s.ref(t, "enc"), x, how={"obj": "shared"}); s.decrypt(c, n, s.ref(j, "enc"), x, how={"obj": "shared"}); s.confirm(c, n, s.ref(j, "cfrm"), x, how={"obj": "shared"})
    for _, v in P.sample(P.corners("ec"), 10, 40):
        s = P.script(); _, j = s.ec_trip("Bitcoin", "mainnet", v["pass"], v["lot"], v["seq"], v["salt"], v["comp"], v["seed"], both=False)
        s.decrypt("Bitcoin", "mainnet", s.ref(j, "enc"), P.secret()); s.confirm("Bitcoin", "mainnet", s.ref(j, "cfrm"), P.secret())
    P.target = P.real
    for _ in range(P.n(3, 20)):
        s = P.script(); pw = P.pw(); c, n, w, _ = P.pair(); t = s.encrypt(c, n, wif(P.key(), True, w), pw)
        for x in near(P, pw)[:2]: s.decrypt(c, n, s.ref(t, "enc"), x)
        s = P.script(); _, j = s.ec_trip(c, n, pw, *P.owner(), True, P.oct(24), both=False)
        for x in near(P, pw)[:2]: s.decrypt(c, n, s.ref(j, "enc"), x); s.confirm(c, n, s.ref(j, "cfrm"), x)
    P.target = P.scripts

# --------------------------------------------------------------------------- C08, C09
FOREIGN = "0OIl +/=-_.,\n\t\0"
FULLWIDTH = [0xFF11, 0x0661, 0xE9, 0x200B, 0x1F511, 0x131, 0x17F, 0x212A]
NOT58 = [c for c in range(128) if chr(c) not in AL]
def edits_of(P, n):
    """One-place corruptions of a text of about n characters."""
    r = P.r; out = []
    for i in range(n + 2):
        for d in ([1, 57] if not P.deep else range(1, 58)): out.append([["shift", i, d if P.deep or d == 57 else r.randrange(1, 57)]])
        out.append([["case", i]]); out.append([["del", i, 1]]); out.append([["swap", i, 1]])
        out.append([["ins", i, [ord(r.choice(AL))]]]); out.append([["sub", i, r.choice(NOT58) if r.random() < .5 else ord(r.choice(FOREIGN))]])
        if P.deep:
            for f in FOREIGN: out.append([["sub", i, ord(f)]]); out.append([["ins", i, [ord(f)]]])
            for f in FULLWIDTH: out.append([["sub", i, f]])
        elif i % 3 == 0: out.append([["ins", i, [r.choice(NOT58) if r.random() < .5 else ord(r.choice(FOREIGN))]]]); out.append([["sub", i, r.choice(FULLWIDTH)]])
    for f in NOT58 + FULLWIDTH + [0xFEFF, 0x2028, 0xA0, 0x202E]:
        if f < 128 or P.deep or r.random() < .5:
            out.append([["ins", 0, [f]]]); out.append([["end", 0, [f]]])
    for f in ("bitcoin:", "BIP38:", "0x", "//", "6P:", "b'", "\r\n", "a=", "\u200b\u200b", "-----"): out.append([["ins", 0, C(f)]]); out.append([["end", 0, C(f)]])
    out += [[["ins", 0, [ord(a)]], ["end", 0, [ord(b)]]] for a, b in ("()", "<>", "''", '""', "[]", "{}", "  ", "\n\n", "**", "``")]
    out += [[["ins", 0, C("1")]], [["ins", 0, C("11111")]], [["end", 0, C("1")]], [["del", 0, 1]], [["del", 0, 4]], [["cutto", 0]], [["cutto", 1]], [["cutto", 4]], [["cutto", 5]], [["cutto", 20]], [["cutto", -1]], [["cutto", -5]], [["dup", 0]]]
    for _ in range(P.n(10, 200)):
        i, j = r.randrange(n), r.randrange(n); out.append([["swap", i, j]]); out.append([["shift", i, r.randrange(1, 57)], ["shift", j, r.randrange(1, 57)]])
    # the octets, checksum included, one bit at a time; a checksum of nothing
    return out
def octet_edits(P, n):
    out = [[["oxor", i, [1 << b]]] for i in range(n) for b in (range(8) if P.deep or i >= n - 4 else [P.r.randrange(8)])]
    out += [[["oset", -4, [0, 0, 0, 0]]], [["oset", -4, [255] * 4]], [["oxor", -4, [1, 1, 1, 1]]], [["oxor", -4, [0, 0, 0, 255]]], [["oxor", -2, [255, 255]]], [["orev", 4]], [["osha"]], [["ocut", 4]], [["ocut", 1]], [["oapp", [0]]], [["oapp", [0, 0, 0, 0]]], [["oins0", [0]]], [["oswap", -1, -2]], [["oswap", -4, -3]]]
    return out
TEXTS = ("wif", "wifc", "enc", "ecenc", "eclot", "code", "codelot", "cfrm", "cfrmlot")
def c08(P):
    r = P.r
    def victims():
        c, n, w, a = P.pair(); pw = P.secret(); k = P.key(); comp = r.random() < .5
        yield "wif", 52, lambda s: (wif(P.key(), False, w), "encrypt")
        yield "wifc", 52, lambda s: (wif(P.key(), True, w), "encrypt")
        yield "enc", 58, lambda s: (s.ref(s.encrypt(c, n, wif(k, comp, w), pw), "enc"), "decrypt")
        for lots in (False, True):
            yield "ecenc%d" % lots, 58, lambda s: (s.ref(s.ec_trip(c, n, pw, *P.owner(lots), comp, P.oct(24), both=False)[1], "enc"), "decrypt")
            yield "cfrm%d" % lots, 75, lambda s: (s.ref(s.ec_trip(c, n, pw, *P.owner(lots), comp, P.oct(24), both=False)[1], "cfrm"), "confirm")
            yield "code%d" % lots, 72, lambda s: (s.ref(s.icode(pw, *P.owner(lots)), "code"), "create")
        return
    for rnd in range(P.n(1, 3)):
        c, n, w, a = P.pair(); pw = P.secret()
        for name, ln, make in victims():
            todo = edits_of(P, ln) + octet_edits(P, {"wif": 37, "wifc": 38}.get(name, 43 if "enc" in name else 53 if "code" in name else 55))
            r.shuffle(todo)
            for k in range(0, len(todo), 60):
                s = P.script(); t, op = make(s)
                if isinstance(t, list): i = s.add(op="text", text=t); t = s.ref(i, "t")
                for ed in todo[k:k + 60]:
                    x = {**t, "edits": ed}
                    if op == "encrypt":
                        s.encrypt(c_of(s, w, r), net_of(w, s), x, pw)
                        if r.random() < .25: s.add(op="wifdec", text=x, prefix=w)
                        if r.random() < .25: s.add(op="wifread", text=x, coin=c_of(s, w, r), net=net_of(w, s), how={"which": r.randrange(3)})
                    elif op == "decrypt": s.decrypt(s.ev_coin(), s.ev_net(), x, s.ev_pass(), how={"obj": "shared"})
                    elif op == "confirm": s.confirm(s.ev_coin(), s.ev_net(), x, s.ev_pass(), how={"obj": "shared"})
                    else: s.create("Bitcoin", "mainnet", x, wt(r.random() < .5), P.oct(24), how={"obj": "shared"})
    # texts that are too short to be anything, of every length
    s = P.script()
    for k in range(0, 12):
        for t in ([AL[0]] * k, [r.choice(AL) for _ in range(k)]):
            t = C("".join(t)); s.encrypt("Bitcoin", "mainnet", t, pw); s.decrypt("Bitcoin", "mainnet", t, pw); s.confirm("Bitcoin", "mainnet", t, pw); s.create("Bitcoin", "mainnet", t, WIF); s.add(op="wifdec", text=t, prefix=[128]); s.add(op="wifread", text=t, coin="Bitcoin", net="mainnet")
    P.target = P.real
    for _ in range(P.n(1, 4)):
        s = P.script(); pw = P.secret(); _, j = s.ec_trip("Bitcoin", "mainnet", pw, *P.owner(), True, P.oct(24), both=False)
        for ed in P.sample(edits_of(P, 58), 20): s.decrypt("Bitcoin", "mainnet", {**s.ref(j, "enc"), "edits": ed}, pw); s.confirm("Bitcoin", "mainnet", {**s.ref(j, "cfrm"), "edits": ed}, pw)
    P.target = P.scripts
BYWIF = {}
for c, n, w, a in COINS: BYWIF.setdefault(tuple(w), []).append((c, n))
def c_of(s, w, r):
    s.pick = r.choice(BYWIF[tuple(w)]); return s.pick[0]
def net_of(w, s): return s.pick[1]
def _last(s, k):
    return next(e[k] for e in reversed(s.ev) if k in e)
S.ev_coin = lambda s: _last(s, "coin")
S.ev_net = lambda s: next((e["ovr"] or e["obj"]) for e in reversed(s.ev) if "obj" in e)
S.ev_pass = lambda s: next(e["pass"] for e in s.ev if "pass" in e)

def c09(P):
    r = P.r; crooked(P); bad_points(P)
    def dec(t, pw, c="Bitcoin", n="mainnet"): P.script().decrypt(c, n, t, pw)
    def conf(t, pw, c="Bitcoin", n="mainnet"): P.script().confirm(c, n, t, pw)
    def make(t): P.script().create("Bitcoin", "mainnet", t, wt(r.random() < .5), P.oct(24))
    pw = P.secret()
    def fplain(key, comp, edits): return {"forged": P.req(kind="plain", coin="Bitcoin", net="mainnet", key=key, comp=comp, ah=P.oct(4), edits=edits, **{"pass": pw}), "field": "enc"}
    def fec(field, comp, lots, edits):
        l, q, s = P.owner(lots)
        return {"forged": P.req(kind="ec", field=field, coin="Bitcoin", net="mainnet", lot=l, seq=q, salt=s, comp=comp, seed=P.oct(24), edits=edits, **{"pass": pw}), "field": field}
    def fcode(lots, edits):
        l, q, s = P.owner(lots); return {"forged": P.req(kind="code", lot=l, seq=q, salt=s, edits=edits, **{"pass": pw}), "field": "code"}
    step = 1
    flags = list(range(256)) if P.deep else sorted(set(r.sample(range(256), 70)) | {1 << k for k in range(8)} | {0xc0 ^ (1 << k) for k in range(8)} | {0xe0 ^ (1 << k) for k in range(8)} | {0x20 ^ (1 << k) for k in range(8)} | {0x24 ^ (1 << k) for k in range(8)} | {0, 255, 0xc0, 0xe0, 0x04, 0x24, 0x20, 0xc4, 0xe4})
    for f in flags:
        dec(fplain(P.key(), r.random() < .5, [["set", 2, [f]]]), pw); dec(fec("enc", r.random() < .5, r.random() < .5, [["set", 2, [f]]]), pw)
        conf(fec("cfrm", r.random() < .5, r.random() < .5, [["set", 5, [f]]]), pw)
    lens = [["cut", 1], ["cut", 2], ["cut", 4], ["cut", 16], ["cut", 36], ["cut", 39], ["app", [0]], ["app", [1]], ["app", [0] * 4], ["app", [0] * 32], ["ins", 0, [0]], ["ins", 3, [0]], ["del", 0, 1], ["del", 3, 1], ["del", 7, 4], ["ins", 7, [0, 0, 0, 0]]]
    for e in lens:
        for b in (False, True):
            dec(fplain(P.key(), b, [e]), pw); dec(fec("enc", b, not b, [e]), pw); conf(fec("cfrm", b, b, [e]), pw); make(fcode(b, [e]))
    for i in range(2):
        for x in ((range(1, 256) if P.deep else [1, 2, 3, 4, 7, 64, 128, 255])):
            dec(fplain(P.key(), r.random() < .5, [["xor", i, [x]]]), pw); dec(fec("enc", r.random() < .5, r.random() < .5, [["xor", i, [x]]]), pw)
    for i in range(8):
        for x in ([1, 2, 3, 4, 0x80, 0xff] if not P.deep else range(1, 256)): make(fcode(r.random() < .5, [["xor", i, [x]]]))
    for i in [*range(5), 18]:
        for x in ([1 << b for b in range(8)] + [0xff] if not P.deep and i != 18 else range(1, 256)): conf(fec("cfrm", r.random() < .5, r.random() < .5, [["xor", i, [x]]]), pw)
    # the point of an intermediate code
    for x in list(range(0, 9)) + [0x0a, 0x12, 0x20, 0x80, 0x82, 0x83, 0xff]: make(fcode(r.random() < .5, [["set", 16, [x]]]))
    offx = [x for x in range(1, 60) if pow(x**3 + 7, (FP - 1) // 2, FP) != 1]
    for x in (FP, FP + 1, FP + 7, 2**256 - 1, 0, 5, *offx[:12], *[FP - 1 - k for k in range(6)]):
        for p in (2, 3): make(fcode(r.random() < .5, [["set", 16, [p] + b32(x)]]))
    for _ in range(P.n(20, 200)): make(fcode(r.random() < .5, [["set", 17, P.oct(32)]]))
    # a key that is none, under the right passphrase
    for k in (0, N, N + 1, 2**256 - 1, N + 2**100, FP, FP - 1):
        for comp in (False, True):
            dec(fplain(b32(k), comp, []), pw)
            t = wif(b32(k), comp, [128]); P.script().encrypt("Bitcoin", "mainnet", t, pw)
            P.script().encrypt("Litecoin", "mainnet", wif(b32(k), comp, NETS["Litecoin"]["mainnet"][0]), pw)
    # records of a passphrase whose factor is none
    for f in NOFACTORS:
        x = steer(b32(f)); c, n, _, _ = P.pair()
        for lots in (False, True):
            q = P.req(kind="ec", field="", coin=c, net=n, lot=NONE, seq=NONE, salt=P.oct(8), comp=lots, seed=P.oct(24), **{"pass": pw})
            dec({"forged": q, "field": "enc"}, x, c, n); conf({"forged": q, "field": "cfrm"}, x, c, n)
    # WIFs
    wifs = []
    for ln in list(range(0, 40)) + [64, 65]: wifs.append(b58c([128] + P.oct(ln)))
    for m in (range(256) if P.deep else [0, 2, 3, 16, 0x81, 0xfe, 255]): wifs.append(b58c([128] + P.key() + [m]))
    wifs += [b58c([128] + P.key() + [1, 1]), b58c([128] + P.key()[1:] + [1]), b58c([0, 128] + P.key()), b58c([128, 128] + P.key() + [1])]
    for x in (range(256) if P.deep else [0, 1, 127, 129, 176, 239, 255]): wifs.append(wif(P.key(), x % 2 == 0, [x]))
    for t in wifs:
        s = P.script(); s.encrypt("Bitcoin", "mainnet", t, pw, obj="mainnet", ovr=""); s.add(op="wifdec", text=t, prefix=[128]); s.add(op="wifread", text=t, coin="Bitcoin", net="mainnet", how={"which": r.randrange(3)})
    # every text where another belongs
    s = P.script(); i = s.encrypt("Bitcoin", "mainnet", wif(P.key(), True, [128]), pw, obj="mainnet", ovr=""); c, j = s.ec_trip("Bitcoin", "mainnet", pw, *P.owner(), True, P.oct(24), both=False)
    ts = [s.ref(i, "enc"), s.ref(c, "code"), s.ref(j, "enc"), s.ref(j, "cfrm"), s.ref(j, "addr"), wif(P.key(), True, [128]), wif(P.key(), False, [128]), b58c([0] + P.oct(20)), b58c([4, 0x88, 0xad, 0xe4] + P.oct(74)), b58c([]), b58c([0]), b58c([1, 66]), b58c([1, 67]), b58c([0x64, 0x3b, 0xf6, 0xa8, 0x9a])]
    for t in ts:
        s.encrypt("Bitcoin", "mainnet", t, pw); s.decrypt("Bitcoin", "mainnet", t, pw); s.confirm("Bitcoin", "mainnet", t, pw); s.create("Bitcoin", "mainnet", t, WIFC, P.oct(24))
        s.add(op="wifdec", text=t, prefix=[128]); s.add(op="wifread", text=t, coin="Bitcoin", net="mainnet")
    # what the library itself issued, re-checksummed after a change
    for _ in range(P.n(8, 60)):
        s = P.script(); x = P.secret(); i = s.encrypt("Bitcoin", "mainnet", wif(P.key(), r.random() < .5, [128]), x, obj="mainnet", ovr=""); c, j = s.ec_trip("Bitcoin", "mainnet", x, *P.owner(), r.random() < .5, P.oct(24), both=False)
        for k in range(6):
            b = [1 << r.randrange(8)]
            s.decrypt("Bitcoin", "mainnet", s.ref(i, "enc", ["rxor", r.randrange(3), b]), x); s.decrypt("Bitcoin", "mainnet", s.ref(j, "enc", ["rxor", r.randrange(3), b]), x)
            s.confirm("Bitcoin", "mainnet", s.ref(j, "cfrm", ["rxor", r.randrange(6), b]), x); s.create("Bitcoin", "mainnet", s.ref(c, "code", ["rxor", r.randrange(8), b]), WIF, P.oct(24))
        # a changed body: another key comes out, or none; never an accepted one
            s.decrypt("Bitcoin", "mainnet", s.ref(i, "enc", ["rxor", 7 + r.randrange(32), b]), x); s.decrypt("Bitcoin", "mainnet", s.ref(j, "enc", ["rxor", 3 + r.randrange(36), b]), x)
            s.confirm("Bitcoin", "mainnet", s.ref(j, "cfrm", ["rxor", 6 + r.randrange(45), b]), x)
    P.target = P.real
    for f in (0xc0, 0x24, 0x44, 0xa0): dec(fplain(P.key(), True, [["set", 2, [f]]]), pw); dec(fec("enc", True, True, [["set", 2, [f]]]), pw)
    for k in (0, N): dec(fplain(b32(k), True, []), pw)
    P.target = P.scripts

# --------------------------------------------------------------------------------- C10
def both_pass(P, a, b, full=True):
    r = P.r; c, n, w, _ = P.pair(); k = wif(P.key(), r.random() < .5, w)
    if full:
        s = P.script(); i = s.encrypt(c, n, k, a, obj=n, ovr=""); j = s.encrypt(c, n, k, b, obj=n, ovr="")
        s.decrypt(c, n, s.ref(i, "enc"), b); s.decrypt(c, n, s.ref(j, "enc"), a); s.decrypt(c, n, s.ref(i, "enc"), a)
    for lots in ((False, True) if full else (r.random() < .5,)):
        s = P.script(); o = P.owner(lots); i = s.icode(a, *o, form="bytes"); j = s.icode(b, *o, form="bytes"); sd = P.oct(24)
        x = s.create(c, n, s.ref(i, "code"), wt(r.random() < .5), sd)
        s.confirm(c, n, s.ref(x, "cfrm"), b); s.decrypt(c, n, s.ref(x, "enc"), b)
        s.confirm(c, n, s.ref(x, "cfrm"), a); s.decrypt(c, n, s.ref(x, "enc"), a)
        if r.random() < .5:      # a foreign record
            code, enc, cfrm = s.fec(c, n, a, *P.owner(lots), True, P.oct(24)); s.decrypt(c, n, enc, b); s.confirm(c, n, cfrm, b)
    if r.random() < .4:
        s = P.script(); t = s.fplain(c, n, P.key(), True, a); s.decrypt(c, n, t, b)
SPECIAL_CH = sorted({c for c in OLD if unicodedata.normalize("NFD", chr(c)) != chr(c) or unicodedata.combining(chr(c)) or unicodedata.normalize("NFKC", chr(c)) != chr(c)})
def forms_of(r, s):
    """A canonically equivalent text."""
    d = unicodedata.normalize("NFD", s); k = r.randrange(4)
    if k == 0: return d
    if k == 1: return unicodedata.normalize("NFC", s)
    i = r.randrange(len(d) + 1)
    t = d[:i] + unicodedata.normalize("NFC", d[i:])
    if unicodedata.normalize("NFC", t) == unicodedata.normalize("NFC", s): return t
    return d
def careless():
    """(with, without) pairs for every character that a careless reader drops or takes for another."""
    cat, norm = unicodedata.category, unicodedata.normalize
    for c in range(0x110000):
        x = chr(c); k = cat(x)
        if 0xD800 <= c < 0xE000: continue
        def pair(m, y): return [(m, ("a" + x + "b", "a" + y + "b"))] if norm("NFC", "a" + x + "b") != norm("NFC", "a" + y + "b") else []
        if k == "Cf" or c in (0x34f, 0x115f, 0x1160, 0x17b4, 0x17b5, 0x3164, 0xffa0, 0xfffd, 0xfffe, 0xffff, 0x2800, 0x640) or 0x180b <= c <= 0x180f or 0xfe00 <= c < 0xfe10 or 0xe0100 <= c < 0xe01f0: yield from pair("rest" if 0xe0000 <= c else "all", "")
        elif k == "Cc": yield from pair("all", ""); yield from pair("rest", " ")
        elif k in ("Zs", "Zl", "Zp"): yield from pair("all", " "); yield from pair("all", "")
        elif k == "Pd": yield from pair("all", "-")
        elif k in ("Pi", "Pf"): yield from pair("all", "'"); yield from pair("all", '"')
        elif k in ("Nd", "No", "Nl") and c > 127 and unicodedata.numeric(x, None) in range(10): yield from pair("rest", str(int(unicodedata.numeric(x))))
        elif c in (0xe000, 0xf8ff, 0xf0000, 0x10fffd): yield from pair("all", "")
    for x, y in ("\u00d7x", "\u2026.", "\u2022*", "\u2215/", "\u2044/", "\u2212-", "\u2010-", "\u0131i", "\u0430a", "\u0435e", "\u043eo", "\u0440p", "\u0441c", "\u0445x", "\u0443y", "\u03bfo", "\u0391A", "\u01c0l", "l1", "O0", "`'", "\u00b4'", "\u02bc'", "\u2032'", "\u00b5\u03bc", "\u00dfs", "\u00e6a", "\u0142l", "\u00f8o", "\u0111d", "\u00d0D", "\u0153o", "\u3002.", "\uff0c,", "\u3001,", "\u30fc-"): yield "all", ("a" + x + "b", "a" + y + "b")
    for x, y in (("\r\n", "\n"), ("\r", "\n"), ("\n\n", "\n"), ("\u0085", "\n"), ("\u2028", "\n"), ("&amp;", "&"), ("&#65;", "A"), ("\\n", "\n"), ("\\t", "\t"), ("\\\\", "\\"), ("+", " "), ("%41", "A"), ("''", "'"), ("\ufffd", "?"), ("$HOME", ""), ("=C3=A9", "\u00e9"), ("\u00df", "ss"), ("\u00c4", "Ae"), ("\u00e4", "ae"), ("\u0149", "\u02bcn"), ("\U0001f468\u200d\U0001f469", "\U0001f468\U0001f469"), ("\U0001f44d\U0001f3fd", "\U0001f44d"), ("\u2764\ufe0f", "\u2764")): yield "all", ("a" + x + "b", "a" + y + "b")
def c10(P):
    r = P.r
    pairs = list(careless()); pairs = [p for m, p in pairs if m == "all"] + P.sample([p for m, p in pairs if m == "rest"], 60, 2000)
    for a, b in pairs:
        if r.random() < .5: a, b = b, a
        c, n, w, _ = P.pair(); s = P.script(); o = P.owner(); s.icode(C(a), *o, form="bytes"); s.icode(C(b), *o, form="bytes"); k = r.randrange(4)
        if k == 0: i = s.encrypt(c, n, wif(P.key(), True, w), C(a), obj=n, ovr=""); s.decrypt(c, n, s.ref(i, "enc"), C(b)); s.decrypt(c, n, s.ref(i, "enc"), C(a))
        if k == 1: code, enc, cfrm = s.fec(c, n, C(a), *o, True, P.oct(24)); s.decrypt(c, n, enc, C(b)); s.decrypt(c, n, enc, C(a)); s.confirm(c, n, cfrm, C(b)); s.confirm(c, n, cfrm, C(a))
        if k == 2: t = s.fplain(c, n, P.key(), True, C(a)); s.decrypt(c, n, t, C(b)); s.decrypt(c, n, t, C(a))
    for a, b in NFC_FORMS:
        x, y = "".join(chr(c) for c in P.secret(r.randrange(3))), "".join(chr(c) for c in P.secret(r.randrange(3)))
        both_pass(P, C(x + a + y), C(x + b + y)); both_pass(P, C(b + b), C(a + b), full=False)
    for a, b in NOT_NFC:
        both_pass(P, C(a), C(b)); both_pass(P, C(b + "z"), C(a + "z"), full=False)
    for _ in range(P.n(60, 1500)):
        s = "".join(chr(r.choice(SPECIAL_CH if r.random() < .8 else OLD)) for _ in range(r.randrange(1, 6)))
        both_pass(P, C(s), C(forms_of(r, s)), full=P.deep)
    # every character that canonical equivalence replaces, of any Unicode version, and a sample of the syllables
    every = [c for c in range(0x110000) if not 0xAC00 <= c < 0xD7A4 and unicodedata.decomposition(chr(c)) and not unicodedata.decomposition(chr(c)).startswith("<")]; r.shuffle(every)
    every += r.sample(range(0xAC00, 0xD7A4), P.n(60, 2000)); marks = [c for c in range(0x110000) if unicodedata.combining(chr(c))]; r.shuffle(marks)
    for i in range(0, len(every), 48):
        x = "".join(chr(c) + r.choice(["", "", "a", "\u0301"]) for c in every[i:i + 48]); both_pass(P, C(x), C(unicodedata.normalize("NFC" if i % 96 else "NFD", x)), full=P.deep)
    for i in range(0, len(marks), 40):      # every mark, next to another one: their order counts only within a class
        m = marks[i:i + 40]; x = "".join("a" + chr(c) + chr(r.choice(marks)) for c in m); y = "".join(x[k] + x[k + 2] + x[k + 1] if unicodedata.combining(x[k + 1]) != unicodedata.combining(x[k + 2]) else x[k:k + 3] for k in range(0, len(x), 3))
        if unicodedata.normalize("NFC", x) == unicodedata.normalize("NFC", y): both_pass(P, C(x), C(y), full=False)
    # the same far inside long passphrases
    for k in range(P.n(60, 800)):
        s = list("".join(map(chr, P.secret(r.choice([15, 31, 32, 33, 63, 64, 65, 127, 128, 129, r.randrange(3, 300)])))))
        for _ in range(r.choice([1, 1, 2, 5])):
            a, b = r.choice(NFC_FORMS); i = r.choice([len(s), len(s) - 1, len(s) // 2, r.randrange(len(s) + 1)]); s.insert(i, (a, b))
        x, y = ("".join(c if isinstance(c, str) else c[j] for c in s) for j in (0, 1))
        if unicodedata.normalize("NFC", x) != unicodedata.normalize("NFC", y): continue
        both_pass(P, C(x), C(y), full=P.deep or k % 4 == 0)
    for _ in range(P.n(12, 200)):
        x = list("".join(map(chr, P.secret(r.choice([33, 64, 65, 66, 73, 129, 257, r.randrange(20, 400)]))))); y = list(x); i = r.choice([len(x) - 1, len(x) - 2, r.randrange(len(x))]); y[i] = chr(ord(y[i]) ^ 1)
        both_pass(P, C("".join(x)), C("".join(y)), full=False)
    for _ in range(P.n(40, 800)):
        s = "".join(chr(r.choice(SPECIAL_CH)) for _ in range(r.randrange(1, 4)))
        both_pass(P, C(s), C(r.choice([unicodedata.normalize("NFKC", s), unicodedata.normalize("NFKD", s), s + s[-1], s[:-1], s.swapcase(), s + "\u0301", s.encode("utf-8").decode("latin-1"), "".join(filter(lambda c: not unicodedata.combining(c), s))])), full=P.deep)
    P.target = P.real
    for a, b in P.sample(NFC_FORMS, 2, 8) + P.sample(NOT_NFC, 2, 8): both_pass(P, C(a), C(b), full=False)
    P.target = P.scripts

# --------------------------------------------------------------------------- C11, C12
MULTI = {c: list(ns) for c, ns in NETS.items() if len(ns) > 1}
UNKNOWN = ["regtest", "Mainnet", "MAINNET", " mainnet", "mainnet ", "main", "test", "testnet3", "testnet", "wif_prefix", "0", "None", "mainnet\n", "livenet", "NETWORKS", "m", "xmainnet", " ", "\n", "\t ", "\0", "mainnet\0", "mainnet,testnet", "\u00a0", "\uff4dainnet", "default", "1", "-", "tests", "estnet", "mainnett", "mainnetmainnet"]
def c11(P):
    r = P.r
    pairs = [(c, a, b) for c, ns in MULTI.items() for a in ns for b in ns if a != b]
    for c, a, b in pairs if P.deep else P.sample([p for p in pairs if p[0] not in ("Bitcoin", *USER)], 20) + [p for p in pairs if p[0] == "Bitcoin"] * 2 + P.sample([p for p in pairs if p[0] in USER], 4):
        comp = r.random() < .5; key, pw = P.key(), P.pw(); wa, wb = NETS[c][a][0], NETS[c][b][0]
        s = P.script()
        i = s.encrypt(c, a, wif(key, comp, wa), pw, obj=a, ovr="", how={"obj": "shared"})
        s.encrypt(c, b, wif(key, comp, wa), pw, obj=b, ovr="", how={"obj": "shared"}); s.encrypt(c, b, wif(key, comp, wa), pw, obj=a, ovr=b, how={"obj": "shared"})
        s.encrypt(c, a, wif(key, comp, wa), pw, obj=b, ovr=a, how={"obj": "shared"}); s.encrypt(c, a, wif(key, comp, wa), pw, obj=a, ovr="", how={"obj": "shared"})
        j = s.encrypt(c, b, wif(key, comp, wb), pw, obj=a, ovr=b, how={"obj": "shared"}); s.encrypt(c, b, wif(key, comp, wb), pw, obj=b, ovr="", how={"obj": "shared"})
        for t in (i, j):
            for o, v in ((a, ""), (b, ""), (a, b), (b, a), (a, ""), (b, "")): s.decrypt(c, v or o, s.ref(t, "enc"), pw, obj=o, ovr=v, how={"obj": "shared"})
        s = P.script(); o = P.owner(); k = s.icode(pw, *o); sd = P.oct(24)
        x = [s.create(c, v or o, s.ref(k, "code"), wt(comp), sd, obj=o, ovr=v, form="bytes", how={"obj": "shared"}) for o, v in ((a, ""), (b, ""), (a, b), (b, a), (a, ""))]
        for t in x[:2]:
            for o, v in ((a, ""), (b, ""), (a, b), (b, a), (a, "")):
                s.decrypt(c, v or o, s.ref(t, "enc"), pw, obj=o, ovr=v, detail=True, how={"obj": "shared"}); s.confirm(c, v or o, s.ref(t, "cfrm"), pw, obj=o, ovr=v, detail=True, how={"obj": "shared"})
    # other coins
    for k in range(P.n(40, 1000)):
        c, n, w, a = P.pair(); d, m, x, b = P.pair(); comp = r.random() < .5; pw = P.pw(); key = P.key()
        if k % 3 == 0: c, n, w, a = r.choice(UPAIRS); d, m, x, b = r.choice([p for p in COINS * 0 + UPAIRS if p[0] != c and (p[2] == w or p[3] == a or p[1] == n)] or [("Bitcoin", "testnet", [239], [111])])
        s = P.script(); i = s.encrypt(c, n, wif(key, comp, w), pw); s.encrypt(d, m, wif(key, comp, w), pw); s.decrypt(d, m, s.ref(i, "enc"), pw); s.decrypt(c, n, s.ref(i, "enc"), pw)
        _, j = s.ec_trip(c, n, pw, *P.owner(), comp, P.oct(24), both=False); s.decrypt(d, m, s.ref(j, "enc"), pw); s.confirm(d, m, s.ref(j, "cfrm"), pw)
        s.add(op="wifread", text=wif(key, comp, w), coin=d, net=m)
    # names that are no network of the coin
    for c in ["Bitcoin", "Litecoin", "Ripple"] + P.sample(sorted(NETS), 12, len(NETS)):
        bad = [u for u in UNKNOWN if u not in NETS[c]]; n = r.choice(list(NETS[c])); w = NETS[c][n][0]; pw = P.pw()
        s = P.script(); i = s.encrypt(c, n, wif(P.key(), True, w), pw, obj=n, ovr=""); k, j = s.ec_trip(c, n, pw, *P.owner(), True, P.oct(24), both=False)
        for u in (bad if P.deep or c == "Bitcoin" else r.sample(bad, 5)):
            s.object(c, u); s.encrypt(c, u, wif(P.key(), True, w), pw, obj=n, ovr=u); s.decrypt(c, u, s.ref(i, "enc"), pw, obj=n, ovr=u); s.decrypt(c, u, s.ref(j, "enc"), pw, obj=n, ovr=u)
            s.confirm(c, u, s.ref(j, "cfrm"), pw, obj=n, ovr=u); s.create(c, u, s.ref(k, "code"), WIF, P.oct(24), obj=n, ovr=u)
        for m in NETS[c]: s.object(c, m)
        s.decrypt(c, n, s.ref(i, "enc"), pw, obj=n, ovr="")
    P.target = P.real
    s = P.script(); pw = P.pw(); i = s.encrypt("Bitcoin", "testnet", wif(P.key(), True, [239]), pw, obj="mainnet", ovr="testnet"); s.decrypt("Bitcoin", "mainnet", s.ref(i, "enc"), pw, obj="mainnet", ovr=""); s.decrypt("Bitcoin", "testnet", s.ref(i, "enc"), pw, obj="mainnet", ovr="testnet"); s.decrypt("Bitcoin", "testnet", s.ref(i, "enc"), pw, obj="testnet", ovr="")
    P.target = P.scripts
def c12(P):
    r = P.r
    for rnd in range(P.n(1, 6)):
        for c, n, w, a in COINS:
            pw = P.pw(); comp = r.random() < .5
            s = P.script(); s.object(c, n)
            for k in ((True, False) if P.deep else (comp,)):
                key = P.key(); i = s.encrypt(c, n, wif(key, k, w), pw); s.decrypt(c, n, s.ref(i, "enc"), pw, detail=True)
            _, j = s.ec_trip(c, n, pw, *P.owner(), not comp, P.oct(24), both=False)
            key = P.key()
            for ty in (WIF, WIFC): t = s.add(op="towif", key=key, wtype=ty, coin=c, net=n, form=r.choice(["hex", "bytes"])); s.add(op="wifread", text=s.ref(t, "t"), coin=c, net=n, how={"which": 0})
            alpha = C(XRP) if c == "Ripple" else C(AL)
            t = s.add(op="addrenc", pub=list(pub_of(key, True)), prefix=a, ptype=C(r.choice(["compressed", "uncompressed"])), alpha=alpha); s.add(op="addrdec", text=s.ref(t, "t"), prefix=a, alpha=alpha)
    for c, n, w, a in main_coins(P, 30): s = P.script(); t = s.fplain(c, n, P.key(), r.random() < .5, C("x")); s.decrypt(c, n, t, C("x"), detail=True)
    real_some(P, 2, 2)

# ------------------------------------------------------------ a small curve, for inputs only
def _add(p, q):
    if p is None: return q
    if q is None: return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % FP == 0: return None
        l = 3 * p[0] * p[0] * pow(2 * p[1], -1, FP) % FP
    else: l = (q[1] - p[1]) * pow(q[0] - p[0], -1, FP) % FP
    x = (l * l - p[0] - q[0]) % FP
    return x, (l * (p[0] - x) - p[1]) % FP
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def mul(k, p=G):
    r = None
    for b in bin(k)[2:]:
        r = _add(r, r)
        if b == "1": r = _add(r, p)
    return r
def pub_of(key, comp, k=None):
    x, y = mul(int.from_bytes(bytes(key), "big"))
    return bytes([2 + y % 2] + b32(x)) if comp else bytes([4] + b32(x) + b32(y))
def on_curve(x): 
    y = pow(x**3 + 7, (FP + 1) // 4, FP)
    return y if y * y % FP == (x**3 + 7) % FP else None
def odd_points(r, rounds):
    """Points chosen by an octet of a coordinate: the first or last of x or of y, in both halves of the curve."""
    for _ in range(rounds):
        for v in (0, 1, 2, 3, 4, 0x0a, 0x20, 0x30, 0x7f, 0x80, 0xff):
            for place in ("x0", "x31", "x0n", "x31n", "y0", "y31"):
                for _ in range(200):
                    o = list(r.randbytes(32))
                    if place[1:] == "0": o[0] = v
                    elif place[1:] == "31": o[31] = v
                    elif place[1:] == "0n": o[:r.randrange(2, 9)] = [v] * 2
                    else: o[-2:] = [v] * 2
                    n = int.from_bytes(bytes(o[:32]).ljust(32, b"\1"), "big") % FP
                    if place[0] == "x":
                        y = on_curve(n)
                        if y is None: continue
                        yield n, y; yield n, FP - y; break
                    x = pow(n * n - 7, (FP + 2) // 9, FP)
                    if (x**3 + 7 - n * n) % FP: continue
                    yield x, n; yield x, FP - n; break
def raw_of(p): return b32(p[0]) + b32(p[1])
PTKEYS = [v for _, v in sorted(CORNERS["points"].items())]

# --------------------------------------------------------------------------- C13 .. C17
def c13(P):
    r = P.r; keys = EDGE_KEYS + PTKEYS + [[0] * 32, [255] * 32, [1] * 32, [0] * 31 + [1], P.oct(31) + [1], P.oct(31) + [0], [1] + [0] * 31, [128] * 32, [0x80] + [1] * 31] + [P.oct(32) for _ in range(P.n(30, 600))]
    for i, k in enumerate(keys):
        s = P.script()
        for p in ([128, 239, 0, 1, 255, r.randrange(256)] if i % 4 == 0 or P.deep else [r.choice([128, 239, 176]), r.randrange(256)]):
            f = r.choice(["bytes", "hex", "HEX"]); j = s.add(op="wifenc", key=k, prefix=[p], form=f, how={"defprefix": p == 128 and r.random() < .5})
            for fld in ("wif", "wifc"): s.add(op="wifdec", text=s.ref(j, fld), prefix=[p], how={"defprefix": p == 128 and r.random() < .5}); s.add(op="wifdec", text=s.ref(j, fld), prefix=[(p + r.randrange(1, 256)) % 256])
        c, n, w, _ = P.pair()
        for ty in (WIF, WIFC): j = s.add(op="towif", key=k, wtype=ty, coin=c, net=n, form=r.choice(["hex", "bytes"])); s.add(op="wifread", text=s.ref(j, "t"), coin=c, net=n, how={"which": r.randrange(3)})
        s.add(op="wifread", text=wif(k, r.random() < .5, w), coin=c, net=n)
    for p in range(256):
        s = P.script(); k = P.key(); j = s.add(op="wifenc", key=k, prefix=[p], form="bytes"); s.add(op="wifdec", text=s.ref(j, "wif"), prefix=[p]); s.add(op="wifdec", text=s.ref(j, "wifc"), prefix=[p])
        s.add(op="wifdec", text=s.ref(j, "wifc"), prefix=[p ^ (1 << r.randrange(8))])
    for ln in list(range(0, 70)) + [128, 256]:
        if ln == 32: continue
        s = P.script(); k = P.oct(ln); s.add(op="wifenc", key=k, prefix=[128], form=r.choice(["bytes", "hex"]))
        s.add(op="wifdec", text=b58c([128] + k), prefix=[128]); s.add(op="wifdec", text=b58c([128] + k + [1]), prefix=[128])
        s.add(op="wifread", text=b58c([128] + k + [1]), coin="Bitcoin", net="mainnet"); s.add(op="towif", key=k, wtype=WIFC, coin="Bitcoin", net="mainnet", form="hex")
    for t in ["", "WIF", "Wif", "wif ", "wif_compressed", "wifcompressed", "compressed", "uncompressed", "wif-uncompressed", "wif-compresse", "none", "0", "wif-compressed\n"]:
        P.script().add(op="towif", key=P.key(), wtype=C(t), coin="Bitcoin", net="mainnet", form="hex")
    for m in range(256): P.script().add(op="wifdec", text=b58c([128] + P.oct(32) + [m]), prefix=[128])
    for _ in range(P.n(6, 60)):
        k = P.key(); s = P.script(); j = s.add(op="wifenc", key=k, prefix=[128], form="bytes")
        for fld in ("wif", "wifc"):
            for ed in P.sample(edits_of(P, 52), 25, 300) + P.sample(octet_edits(P, 38), 25, 80): s.add(op=r.choice(["wifdec", "wifread"]), text=s.ref(j, fld, *ed), prefix=[128], coin="Bitcoin", net="mainnet")
def c14(P):
    r = P.r; keys = PTKEYS * 2 + EDGE_KEYS + [P.key() for _ in range(P.n(40, 800))]
    alphas = [C(AL), C(XRP), C("".join(r.sample(AL, 58)))]
    prefixes = [[0], [5], [111], [255], [1], [0x1c, 0xb8], [5, 0x82], [1, 0], [255, 255]] + [a for _, _, _, a in COINS]
    for k in keys:
        s = P.script(); P1 = pub_of(k, True), pub_of(k, False); raw = P1[1][1:]
        for ty in ("compressed", "uncompressed"):
            p, al = r.choice(prefixes), alphas[0] if r.random() < .6 else r.choice(alphas)
            if r.random() < .3: p = [0]
            pub = r.choice(P1 + (raw,)) if r.random() < .3 else r.choice(P1); form = r.choice(["bytes", "hex", "HEX", "object"])
            if len(pub) == 64: form = r.choice(["bytes", "hex"]) 
            h = {"pubform": form, "defprefix": p == [0] and r.random() < .5, "defalpha": al == alphas[0] and r.random() < .5, "deftype": r.random() < .5}
            i = s.add(op="addrenc", pub=list(pub), prefix=p, ptype=C(ty), alpha=al, how=h)
            s.add(op="addrdec", text=s.ref(i, "t"), prefix=p, alpha=al, how={"defprefix": p == [0] and r.random() < .5, "defalpha": al == alphas[0] and r.random() < .5})
            q = r.choice(prefixes); s.add(op="addrdec", text=s.ref(i, "t"), prefix=q, alpha=al); s.add(op="addrdec", text=s.ref(i, "t"), prefix=p, alpha=r.choice(alphas))
    # points whose octets are unusual in some place, in every form they can be handed over in
    for x, y in odd_points(r, P.n(1, 12)):
        c, u = [2 + y % 2] + b32(x), [4] + b32(x) + b32(y); s = P.script(); p = r.choice(prefixes)
        ways = [(o, f, ty, d) for o, fs in ((c, ("bytes", "hex", "HEX", "object")), (u, ("bytes", "hex", "HEX", "object")), (u[1:], ("bytes", "hex"))) for f in fs for ty, d in (("compressed", True), ("compressed", False), ("uncompressed", False))]
        for o, f, ty, d in (ways if P.deep else P.r.sample(ways, 11) + [(c, "object", "compressed", True)]): s.add(op="addrenc", pub=o, prefix=p, ptype=C(ty), alpha=alphas[0], how={"pubform": f, "deftype": d, "defalpha": True, "defprefix": p == [0]})
    for p in prefixes:
        for h in ([0] * 20, [0] + P.oct(19), [0] * 5 + P.oct(15), P.oct(20), [255] * 20):
            s = P.script(); al = r.choice(alphas); s.add(op="addrdec", text=b58c(p + h, txt(al)), prefix=p, alpha=al)
        for ln in (0, 1, 19, 21, 22, 32): P.script().add(op="addrdec", text=b58c(p + P.oct(ln)), prefix=p, alpha=C(AL))
        P.script().add(op="addrdec", text=b58c(P.oct(20)), prefix=p, alpha=C(AL)); P.script().add(op="addrdec", text=b58c([p[0] ^ 1] + p[1:] + P.oct(20)), prefix=p, alpha=C(AL)); P.script().add(op="addrdec", text=b58c(p[:-1] + [p[-1] ^ 128] + P.oct(20)), prefix=p, alpha=C(AL))
    # every prefix of one octet, and many of two
    for p in [[a] for a in range(256)] + [[a, b % 256] for a in r.sample(range(1, 256), 255 if P.deep else 40) for b in (a, a + 1, a - 1, 0, 255, r.randrange(256))]:
        s = P.script(); i = s.add(op="addrenc", pub=list(pub_of(r.choice(EDGE_KEYS), r.random() < .5)), prefix=p, ptype=C(r.choice(["compressed", "uncompressed"])), alpha=C(AL)); s.add(op="addrdec", text=s.ref(i, "t"), prefix=p, alpha=C(AL))
    for _ in range(P.n(4, 40)):
        p = r.choice(prefixes); s = P.script(); i = s.add(op="addrenc", pub=list(pub_of(P.key(), True)), prefix=p, ptype=C("compressed"), alpha=C(AL))
        for ed in P.sample(edits_of(P, 34), 60, 600) + P.sample(octet_edits(P, 25), 60, 200): s.add(op="addrdec", text=s.ref(i, "t", *ed), prefix=p, alpha=C(AL))
    # no public key
    for o in ([], [2], [2] + P.oct(31), [2] + P.oct(33), [4] + P.oct(64), [5] + P.oct(32), [2] + b32(5), [3] + b32(FP), [2] + b32(0), P.oct(64), P.oct(20), [0] * 33, [0] * 65): P.script().add(op="addrenc", pub=o, prefix=[0], ptype=C("compressed"), alpha=C(AL), how={"pubform": r.choice(["bytes", "hex"])})
txt = lambda c: "".join(map(chr, c))
def c15(P):
    r = P.r; alphas = [C(AL), C(AL), C(XRP), C("".join(r.sample(AL, 58))), C("".join(r.sample("".join(chr(c) for c in range(33, 127)), 58)))]
    data = [[0] * k + P.oct(n) for k in range(0, 12) for n in (0, 1, 2, 5, 21, 25, 32)] + [P.oct(n) for n in range(0, P.n(90, 200))] + [[0] * k for k in range(0, 40)] + [[255] * k for k in range(0, 40, 3)] + [[0] * 8 + [255] * 3, [1], [57], [58], [0, 57], [0, 58], [13, 36], [1, 0], [1, 0, 0], [0, 1, 0, 0]] + \
           [list((58**k - d).to_bytes(40, "big").lstrip(b"\0")) for k in range(1, 30, 2) for d in (0, 1)] + [P.oct(n) for n in ([300, 511, 1000, 1500, 3000] if P.deep else [300, 1500])] + [[0] * 1100 + P.oct(3)]
    for d in data:
        s = P.script(); al = r.choice(alphas); chk = r.random() < .4
        i = s.add(op="b58enc", chk=chk, data=d, alpha=al, how={"defalpha": al == C(AL) and r.random() < .5, "kw": r.random() < .5}); s.add(op="b58dec", chk=chk, text=s.ref(i, "t"), alpha=al, how={"defalpha": al == C(AL) and r.random() < .5, "kw": r.random() < .5})
        if r.random() < .5: s.add(op="b58dec", chk=not chk, text=s.ref(i, "t"), alpha=al)
    for _ in range(P.n(300, 6000)):
        al = r.choice(alphas); n = r.randrange(0, 40); t = [al[0]] * r.choice([0, 0, 1, 3, n]) + [r.choice(al) for _ in range(n)]
        P.script().add(op="b58dec", chk=False, text=t, alpha=al, how={"defalpha": al == C(AL)})
    for _ in range(P.n(300, 4000)):
        al = r.choice(alphas[:5]); n = r.randrange(0, 30); t = [r.choice(al) for _ in range(n)]
        t.insert(r.randrange(n + 1), r.choice([c for c in C(FOREIGN) + FULLWIDTH + list(range(32, 127)) if c not in al])); P.script().add(op="b58dec", chk=r.random() < .3, text=t, alpha=al, how={"defalpha": al == C(AL)})
    for f in "0OIl \n\t\r\x0b\x0c\0\x1c\x85\xa0\u2003":
        for k in (0, 1):
            t = b58c(P.oct(21)); P.script().add(op="b58dec", chk=True, text=(C(f) + t) if k else (t + C(f)), alpha=C(AL)); P.script().add(op="b58dec", chk=False, text=(C(f) + t) if k else (t + C(f)), alpha=C(AL))
        P.script().add(op="b58dec", chk=False, text=C(f), alpha=C(AL))
    for n in range(0, 12):
        for t in ([ord(r.choice(AL)) for _ in range(n)], [49] * n): P.script().add(op="b58dec", chk=True, text=t, alpha=C(AL))
    for _ in range(P.n(5, 50)):
        d = [0] * r.choice([0, 0, 2]) + P.oct(r.randrange(0, 40)); s = P.script(); i = s.add(op="b58enc", chk=True, data=d, alpha=C(AL))
        for ed in P.sample(edits_of(P, 40), 50, 400) + P.sample(octet_edits(P, len(d) + 4), 50, 200): s.add(op="b58dec", chk=True, text=s.ref(i, "t", *ed), alpha=C(AL))
    # alphabets much like one another, one after the other in one process
    rot = lambda t, k: t[k:] + t[:k]
    def kin():
        i, j = sorted(r.sample(range(58), 2)); k = r.choice([1, 2, 8, 15, 16, 17, 24, 29, 31, 32, 33, 48, 55, 56])
        sw = list(AL); sw[i], sw[j] = sw[j], sw[i]; tail = list(AL[k:]); r.shuffle(tail); head = list(AL[:k]); r.shuffle(head)
        other = list(AL); other[r.randrange(58)] = r.choice("0OIl+/_-")
        return r.choice(["".join(sw), AL[:k] + AL[k:][::-1], AL[:k] + "".join(tail), "".join(head) + AL[k:], rot(AL, k), AL.swapcase().replace("L", "l").replace("i", "I"), "".join(other), AL[::-1], XRP, rot(XRP, k), AL[:57] + "0", "0" + AL[1:]])
    for _ in range(P.n(40, 700)):
        fam = [AL] + [kin() for _ in range(r.randrange(1, 4))]; s = P.script(); fam = [C(a) for a in fam if len(set(a)) == 58]; r.shuffle(fam); made = []
        for _ in range(r.randrange(3, 7)):
            al = r.choice(fam); d = [0] * r.choice([0, 0, 1, 3]) + P.oct(r.randrange(1, 40)); chk = r.random() < .4
            made.append((s.add(op="b58enc", chk=chk, data=d, alpha=al), al, chk))
        for i, al, chk in made + r.sample(made, 2): s.add(op="b58dec", chk=chk, text=s.ref(i, "t"), alpha=al); s.add(op="b58dec", chk=r.random() < .5, text=s.ref(i, "t"), alpha=r.choice(fam))
    for k in range(0, 58): s = P.script(); a, b = C(AL[:k] + AL[k:][::-1]), C(rot(AL, k)); d = P.oct(r.randrange(20, 48)); i = [s.add(op="b58enc", chk=False, data=d, alpha=x) for x in (C(AL), a, b)]; [s.add(op="b58dec", chk=False, text=s.ref(j, "t"), alpha=x) for j, x in zip(i, (C(AL), a, b))]
def c16(P):
    r = P.r; rk = lambda: r.randrange(1, N)
    for k in EDGE_KEYS + PTKEYS + [b32(rk()) for _ in range(P.n(40, 800))] + [b32(k) for k in range(1, 20)]: P.script().add(op="keypub", key=k)
    for k in (0, N, N + 1, 2**256 - 1, FP, N + 2**64, 2**256 - 2**128): P.script().add(op="keypub", key=b32(k))
    for ln in list(range(0, 32)) + [33, 34, 40, 64, 65]: P.script().add(op="keypub", key=P.oct(ln)); P.script().add(op="keypub", key=[0] * (ln - 1) + [1] if ln else [])
    for k in EDGE_KEYS[:6] + PTKEYS[:4] + [b32(rk()) for _ in range(P.n(20, 300))]:       # a key and something more or less
        for x in (k + [1], k + [0], [0] + k, [128] + k, k[:-1], k[1:], k + k, [0] * 32 + k, [4] + k, C(bytes(k).hex()), [128] + k + [1], k + [10], [32] + k): P.script().add(op="keypub", key=x)
    offx = [x for x in range(1, 40) if pow(x**3 + 7, (FP - 1) // 2, FP) != 1]
    for k in PTKEYS + EDGE_KEYS + [b32(rk()) for _ in range(P.n(25, 500))]:
        c, u = list(pub_of(k, True)), list(pub_of(k, False)); raw = u[1:]; s = P.script(); y2 = raw[:32] + b32(FP - int.from_bytes(bytes(raw[32:]), "big"))
        for o in (c, u, raw, y2): s.add(op="pubread", data=o); s.add(op="ptread", data=o)
        for o in (C(bytes(c).hex()), C(bytes(u).hex()), C(bytes(raw).hex()), c + [1], c + [10], [0] + c, [4] + c, [4, 4] + raw, [0] + u, c + c, raw + raw, raw[:32], raw[32:], raw[:32] + [0] * 32, [0] * 64, [4] + [0] * 64, c[:-1], c + [0], u[:-1], u + [0], raw[:-1], raw + [0], [5] + c[1:], [4] + c[1:], [0] + c[1:], c[1:], [2] + raw, [3] + raw, [5] + raw, [0] + raw, raw[:63] + [raw[63] ^ 1], raw[32:] + raw[:32], [4] + raw[32:] + raw[:32], [4] + raw[:32] + b32((int.from_bytes(bytes(raw[32:]), "big") + 1) % FP)):
            if r.random() < (1 if P.deep else .5): s.add(op=r.choice(["pubread", "ptread"]), data=o)
    for x in offx[:12] + [0, FP, FP + 1, FP + 2, 2**256 - 1, FP - 1]:
        for p in (2, 3): s = P.script(); s.add(op="pubread", data=[p] + b32(x)); s.add(op="ptread", data=[p] + b32(x))
    for ln in list(range(0, 70)): P.script().add(op=r.choice(["pubread", "ptread"]), data=P.oct(ln)); P.script().add(op=r.choice(["pubread", "ptread"]), data=[0] * ln)
    # coordinates that are right modulo the field only
    for k in range(1, 40):
        p = mul(k)
        if p[0] + FP < 2**256: P.script().add(op="ptread", data=b32(p[0] + FP) + b32(p[1]))
    for x in range(1, 60):
        y = pow(x**3 + 7, (FP + 1) // 4, FP)
        if y * y % FP == (x**3 + 7) % FP: P.script().add(op="pubread", data=[2] + b32(x)); P.script().add(op="pubread", data=[2] + b32(x + FP)); P.script().add(op="ptread", data=b32(x + FP) + b32(y)); P.script().add(op="ptread", data=b32(x) + b32(y)); P.script().add(op="pubread", data=[4] + b32(x + FP) + b32(y))
    # coordinates given as numbers: in the field or not, of either sign
    def xy(x, y): P.script().add(op="ptcoord", x=list(abs(x).to_bytes((abs(x).bit_length() + 7) // 8, "big")), y=list(abs(y).to_bytes((abs(y).bit_length() + 7) // 8, "big")), neg=[x < 0, y < 0], how={"kw": r.random() < .5})
    for k in [1, 2, 3, N - 1] + [int.from_bytes(bytes(q), "big") for q in PTKEYS[:12]] + [rk() for _ in range(P.n(12, 200))]:
        x, y = mul(k); xy(x, y); xy(x, FP - y)
        for q in r.sample([(x + FP, y), (x, y + FP), (x + FP, y + FP), (x - FP, y), (x, y - FP), (x, -y), (-x, y), (y, x), (x, y ^ 1), (x ^ 1, y), (x, 0), (0, y), (x + N, y), (x, FP + FP - y), (x << 8, y), (x, y << 8), (2 * FP + x, y), (x, x)], P.n(7, 18)): xy(*q)
    for q in ((0, 0), (FP, FP), (0, FP), (FP, 0), (1, 1), (-1, -1), (0, 7), (2**256, 2**256)): xy(*q)
    hows = [{}, {"coords": True}, {"viapub": True}, {"radd": True}]
    pts = [int.from_bytes(bytes(k), "big") for k in PTKEYS + EDGE_KEYS]
    for _ in range(P.n(60, 1200)):
        a = r.choice([rk(), r.choice(pts), r.randrange(1, 9)]); b = r.choice([rk(), r.choice(pts), a, N - a, 2 * a % N or 1, r.randrange(1, 9)])
        P.script().add(op="ptadd", a=raw_of(mul(a)), b=raw_of(mul(b)), how=r.choice(hows))
    for _ in range(P.n(60, 1200)):
        a = r.choice([rk(), r.choice(pts), 1]); k = r.choice([rk(), r.choice(pts), 1, 2, 3, N - 1, N - 2, N + 1, 2 * N - 1, 2**256 - 1, r.randrange(1, 2**64)])
        P.script().add(op="ptmul", a=raw_of(mul(a)), k=b32(k % 2**256), how=r.choice(hows[:3]))
    for k in (0, N): P.script().add(op="ptmul", a=raw_of(mul(5)), k=b32(k))
    for k in [N << 40, (N << 40) + 3, 2**256, 2**256 + 1, 2**257 - 1, N * N, N * N - 1, (N << 256) + 1] + [r.getrandbits(r.choice([257, 264, 300, 384, 512, 520, 1024])) | 1 << 256 for _ in range(P.n(10, 100))] + [r.randrange(1, 300) for _ in range(4)]:
        P.script().add(op="ptmul", a=raw_of(mul(r.choice([1, rk(), r.choice(pts)]))), k=list(k.to_bytes((k.bit_length() + 7) // 8, "big")), how=r.choice(hows[:3]))
    # the order of two steps does not matter: (a+b)c = ac+bc is in the values above
def c17(P):
    r = P.r; fns = ["sha256", "double_sha256", "get_checksum", "ripemd160", "hash160"]
    def some(target, impl, lens):
        P.target = target
        for ln in lens:
            s = P.script(); d = r.choice([P.oct, P.oct, P.oct, lambda n: [0] * n, lambda n: [255] * n, lambda n: [r.choice([0, 48, 97, 128])] * n])(ln)
            for fn in fns if ln < 300 or 600 < ln < 4200 and ln % 64 in (0, 1, 63) else r.sample(fns, 2):
                s.add(op="hash", fn=fn, data=d, form=r.choice(["bytes", "hex", "HEX"]), impl=impl if fn in ("ripemd160", "hash160") else "any")
            if ln < 300: s.add(op="hash", fn="ripemd160", data=d, form="bytes", impl="bundled", how={"direct": True})
    lens = list(range(0, 200)) + [255, 256, 257, 319, 320, 321, 375, 376, 383, 384, 447, 448, 511, 512, 513, 1000] + [k * 2**m + d for m in (10, 11, 12) for k in (1, 3) for d in (-1, 0, 1)] + [2**m + d for m in (13, 14, 15) for d in (0, 1)] + ([r.randrange(200, 3000) for _ in range(300)] if P.deep else [r.randrange(200, 2000) for _ in range(10)])
    some(P.scripts, "platform", lens)
    for ln in (2**16 - 1, 2**16 + 3) + (2**21 + 5,):     # lengths whose number of bits needs 16 and more
        d = [97] * ln; P.script().add(op="hash", fn="ripemd160", data=d, form="bytes", impl="bundled", how={"direct": True})
        if P.deep: P.script().add(op="hash", fn="hash160", data=d, form="hex", impl="platform")
    # hex text whose characters are digits only, or that reads as a number
    for t in ([0x12] * 8, [0x00], [0x00, 0x01], [0x31], [0x0e], [0x1e, 0x05], [0x61] * 4, []):
        s = P.script()
        for fn in fns:
            for f in ("bytes", "hex"): s.add(op="hash", fn=fn, data=t, form=f, impl="platform")
    other = []
    some(other, "bundled", lens)
    P.target = P.scripts
    P.runs.append((other, ["--no-openssl-ripemd"]))

# --------------------------------------------------------------------------------- C18
def c18(P):
    """Drawn salts and seeds; the draws of all processes are put together in check.py."""
    r = P.r
    def some(target, salts, seeds):
        P.target = target
        same = P.pw()
        for k in range(salts):
            s = P.script(draws=True)
            for q in range(20): s.icode(same if q % 2 else P.secret(8), *(P.lots() if r.random() < .4 else (NONE, NONE)), NONE)
        lot, seq = P.lots()
        for k in range(salts // 2):
            s = P.script(draws=True)
            for q in range(10): s.icode(same, lot, seq, NONE)
        code = None
        for k in range(seeds):
            s = P.script(draws=True); i = s.icode(C("same"), NONE, NONE, [7] * 8); c, n, _, _ = P.pair()
            for q in range(12): s.create(c, n, s.ref(i, "code"), wt(q % 2 == 0), NONE, how={"obj": "shared" if q % 3 else "fresh"})
            j = s.icode(C("same"), NONE, NONE, NONE); x = s.create(c, n, s.ref(j, "code"), WIFC, NONE); s.decrypt(c, n, s.ref(x, "enc"), C("same"), detail=True); s.confirm(c, n, s.ref(x, "cfrm"), C("same"))
    some(P.scripts, P.n(16, 150), P.n(16, 120))
    for _ in range(2):
        o = []; some(o, P.n(8, 40), P.n(8, 40)); P.runs.append((o, ["--freeze"]))
    # what is given explicitly does not enter what is drawn later, on the same object or another
    P.target = P.scripts; given, salts = P.oct(24), (P.oct(4), P.oct(8)); lot, seq = P.lots()
    for k in range(P.n(12, 60)):
        s = P.script(draws=True, mode="fresh" if k % 2 else ""); i = s.icode(C("same"), NONE, NONE, [7] * 8); h = {"obj": "shared" if k % 4 < 2 else "fresh"}; z = dict(obj="mainnet", ovr="")
        for q in range(4):
            s.create("Bitcoin", "mainnet", s.ref(i, "code"), WIF, given, how=h, **z); s.create("Bitcoin", "mainnet", s.ref(i, "code"), WIF, NONE, how=h, **z)
            s.icode(C("same"), NONE, NONE, salts[1], how={}); s.icode(C("same"), NONE, NONE, NONE, how={}); s.icode(C("same"), lot, seq, salts[0], how={}); s.icode(C("same"), lot, seq, NONE, how={})
    # processes forked from one that has drawn before
    for k in range(P.n(12, 60)):
        s = P.script(draws=True); i = s.icode(C("same"), NONE, NONE, [7] * 8); h = {"obj": "shared" if k % 2 else "fresh"}; z = dict(obj="mainnet", ovr="")
        for q in range(1 + k % 4): s.create("Bitcoin", "mainnet", s.ref(i, "code"), WIF, NONE, how=h, **z); s.icode(C("same"), NONE, NONE, NONE); s.icode(C("same"), lot, seq, NONE)
        s.ev.append({"fork": 3})
        for q in range(3): s.create("Bitcoin", "mainnet", s.ref(i, "code"), WIF, NONE, how=h, **z); s.icode(C("same"), NONE, NONE, NONE); s.icode(C("same"), lot, seq, NONE)
    # threads: one after the other, and at once
    def threads(k):
        s = P.script(draws=True); i = s.icode(C("same"), NONE, NONE, [7] * 8); z = dict(obj="mainnet", ovr=""); o = {"obj": "shared" if k % 2 else "fresh"}; h = {**o, "thread": True}
        if k % 3 == 0: h = {**o}; s.ev.append({"threads": 4})
        for q in range(4): s.create("Bitcoin", "mainnet", s.ref(i, "code"), wt(q % 2), NONE, how=h, **z); s.icode(C("same"), NONE, NONE, NONE, how=h); s.icode(C("same"), lot, seq, NONE, how=h)
    for k in range(P.n(12, 60)): threads(k)
    o = []; P.target = o
    for k in range(P.n(12, 60)): threads(k)
    P.runs.append((o, ["--freeze"]))
    # the generator is reseeded between calls
    P.target = P.scripts
    for k in range(P.n(8, 40)):
        s = P.script(draws=True); i = s.icode(C("same"), NONE, NONE, [7] * 8)
        for q in range(8):
            s.ev.append({"hist": "seed"}); s.create("Bitcoin", "mainnet", s.ref(i, "code"), WIF, NONE, how={"obj": "fresh"}); s.ev.append({"hist": "seed"}); s.icode(C("same"), NONE, NONE, NONE); s.ev.append({"hist": "seed"}); s.icode(C("same"), *P.lots(), NONE)
    real_some(P, 0, 0)
    P.target = P.real
    for _ in range(P.n(2, 10)): drawn_ec(P, *P.pair()[:2])
    P.target = P.scripts

# --------------------------------------------------------------------------------- C19
def c19_calls(P):
    """Calls with explicit arguments that have much in common: the same text with other passphrases,
    the same passphrase with other texts, owners that share a salt, two networks, refused calls.
    The texts are the specification's, so that each call can be the first one of a process."""
    r = P.r; c = r.choice(sorted(MULTI) + ["Bitcoin"] * 6); ns = list(NETS[c]); a = r.choice(ns); b = r.choice([n for n in ns if n != a]); w = NETS[c][a][0]; d, m, x, _ = P.pair()
    if c in USER or r.random() < .2:      # two coins of one name, or with prefixes of each other
        (c, a), (d, m) = r.choice([(("User1", "mainnet"), ("User2", "mainnet")), (("User2", "regtest"), ("User1", "regtest")), (("User3", "mainnet"), ("Bitcoin", "mainnet")), (("Bitcoin", "testnet"), ("User3", "testnet")), (("User4", "mainnet"), ("Bitcoin", "mainnet"))])
        b = r.choice([n for n in NETS[c] if n != a]); w, x = NETS[c][a][0], NETS[d][m][0]
    pw, pw2 = P.secret(8), P.secret(8); k1, k2 = P.key(), P.key(); comp = r.random() < .5
    o1, o2 = P.owner(False), P.owner(True); o3 = (o2[0], [(o2[1][0] + 1) % 4096], o2[2]); sd1, sd2 = P.oct(24), P.oct(24)
    def plain(c, n, k, comp, pw): return {"forged": P.req(kind="plain", coin=c, net=n, key=k, comp=comp, **{"pass": pw}), "field": "enc"}
    def ec(c, n, pw, o, comp, sd): 
        q = P.req(kind="ec", field="", coin=c, net=n, lot=o[0], seq=o[1], salt=o[2], comp=comp, seed=sd, **{"pass": pw})
        return [{"forged": q, "field": f} for f in ("enc", "cfrm", "code")]
    e1, e2, e3, e4 = plain(c, a, k1, comp, pw), plain(d, m, k2, not comp, pw2), plain(c, a, k1, comp, pw2), plain(c, a, k1, not comp, pw)
    R1, R2, R3, R4, R5 = ec(c, a, pw, o1, comp, sd1), ec(d, m, pw2, o2, not comp, sd2), ec(c, a, pw, o1, not comp, sd2), ec(c, a, pw2, o1, comp, sd1), ec(c, b, pw, o2, comp, sd1)
    s = S(P, {"events": []}); A = dict(obj=a, ovr=""); BA = dict(obj=b, ovr=a); AB = dict(obj=a, ovr=b); M = dict(obj=m, ovr=""); Z = dict(obj=a, ovr="regtest7"); h = {}
    for t in (e1, e3, e4):
        for p in (pw, pw2): s.decrypt(c, a, t, p, detail=r.random() < .5, **r.choice([A, A, BA]))
    s.decrypt(c, b, e1, pw, detail=False, **AB); s.decrypt(d, m, e2, pw2, detail=True, **M); s.decrypt(d, m, e2, pw, detail=False, **M); s.decrypt(c, a, e1, pw, detail=True, **Z)
    for R in (R1, R3, R4):
        for p in (pw, pw2): s.decrypt(c, a, R[0], p, detail=r.random() < .5, **r.choice([A, A, BA])); s.confirm(c, a, R[1], p, detail=r.random() < .5, **r.choice([A, A, BA]))
    s.decrypt(d, m, R2[0], pw2, detail=True, **M); s.decrypt(d, m, R2[0], pw, detail=True, **M); s.confirm(d, m, R2[1], pw2, detail=True, **M); s.confirm(d, m, R2[1], pw, detail=True, **M)
    s.decrypt(c, b, R5[0], pw, detail=True, **AB); s.confirm(c, b, R5[1], pw, detail=True, **AB); s.decrypt(c, a, R5[0], pw, detail=False, **A); s.decrypt(c, a, R1[0], pw, detail=True, **Z); s.confirm(c, a, R1[1], pw, **Z)
    for k, cm, p, n, kw in ((k1, comp, pw, a, A), (k2, comp, pw, a, A), (k1, not comp, pw, a, BA), (k1, comp, pw2, a, A), (k1, comp, pw, b, AB), (k1, comp, pw, a, AB), (k1, comp, pw, a, Z)): s.encrypt(c, n, wif(k, cm, NETS[c][n][0]), p, **kw)
    s.encrypt(d, m, wif(k2, not comp, x), pw2, **M); s.encrypt(c, a, wif(k1, comp, w)[:-1], pw, **A)
    for p, o in ((pw, o1), (pw2, o1), (pw, o2), (pw2, o2), (pw, o3), (pw, (o2[0], o2[1], o2[2][:4] + P.oct(4)) if len(o2[2]) == 8 else o1), (pw, ([5], [5], o2[2])), (pw, (o2[0], NONE, o1[2]))): s.icode(p, *o, form=r.choice(["bytes", "hex"]))
    for t, n, cm, sd, kw in ((R1[2], a, comp, sd1, A), (R1[2], a, not comp, sd1, A), (R1[2], a, comp, sd2, BA), (R1[2], b, comp, sd1, AB), (R4[2], a, comp, sd1, A), (R5[2], a, comp, sd1, A), (R1[2], a, comp, sd1[:-1], A), (R1[2], a, comp, sd1, Z)): s.create(c, n, t, wt(cm), sd, form=r.choice(["bytes", "hex"]), **kw)
    s.create(d, m, R2[2], wt(comp), sd1, form="hex", **M)
    s.object(c, a); s.object(c, "nonet"); s.object(d, m)
    # damaged texts
    def bad(t, ed): return {**t, "edits": [ed]}
    for t, at in ((e1, 2), (R1[0], 2), (R3[0], 0)): s.decrypt(c, a, bad(t, ["rset", at, [r.choice([0x01, 0xc0, 0xe4, 0x40, 0x21, 0xff])]]), pw, detail=r.random() < .5, **A)
    for t, at in ((R1[1], 5), (R3[1], 5), (R1[1], 0)): s.confirm(c, a, bad(t, ["rset", at, [r.choice([0x01, 0xc0, 0xe4, 0x40, 0x21, 0xff])]]), pw, detail=r.random() < .5, **A)
    for at, x in ((7, [0x50]), (16, [4])): s.create(c, a, bad(R1[2], ["rset", at, x]), wt(comp), sd1, form="hex", **A)
    s.decrypt(c, a, bad(e1, ["shift", 20, 3]), pw, detail=True, **A); s.confirm(c, a, bad(R1[1], ["shift", 20, 3]), pw, detail=True, **A); s.create(c, a, bad(R1[2], ["del", 30, 1]), wt(comp), sd1, form="hex", **A)
    # the conversions next to them
    pub = pub_of(k1, True); raw = list(pub_of(k1, False))[1:]; raw2 = list(pub_of(k2, False))[1:]; al = C(AL)
    for k in (k1, k2): s.add(op="wifenc", key=k, prefix=w, form="hex"); s.add(op="towif", key=k, wtype=wt(comp), coin=c, net=a, form="hex"); s.add(op="keypub", key=k)
    s.add(op="towif", key=k1, wtype=wt(comp), coin=c, net=b, form="hex"); s.add(op="towif", key=k1, wtype=wt(not comp), coin=c, net=a, form="hex"); s.add(op="wifenc", key=k1, prefix=[(w[0] + 1) % 256], form="hex")
    for cm in (comp, not comp): s.add(op="wifread", text=wif(k1, cm, w), coin=c, net=a); s.add(op="wifdec", text=wif(k1, cm, w), prefix=w)
    s.add(op="wifread", text=wif(k1, comp, w), coin=c, net=b); s.add(op="wifdec", text=wif(k1, comp, w), prefix=[(w[0] + 1) % 256])
    for ty in ("compressed", "uncompressed"): s.add(op="addrenc", pub=list(pub), prefix=[0], ptype=C(ty), alpha=al)
    s.add(op="addrenc", pub=list(pub), prefix=[5], ptype=C("compressed"), alpha=al); s.add(op="addrenc", pub=list(pub), prefix=[0], ptype=C("compressed"), alpha=C(XRP)); s.add(op="addrenc", pub=list(pub_of(k2, True)), prefix=[0], ptype=C("compressed"), alpha=al)
    hh = P.oct(20)
    for p in ([0], [5]): s.add(op="addrdec", text=b58c(p + hh), prefix=p, alpha=al); s.add(op="addrdec", text=b58c([0] + hh), prefix=p, alpha=C(XRP))
    for o in (list(pub), [5 - pub[0]] + list(pub)[1:], raw, [4] + raw2): s.add(op="pubread", data=o); s.add(op="ptread", data=o)
    neg = raw[:32] + b32(FP - int.from_bytes(bytes(raw[32:]), "big"))
    s.add(op="ptadd", a=raw, b=raw2); s.add(op="ptadd", a=raw, b=raw); s.add(op="ptadd", a=neg, b=raw2); s.add(op="ptmul", a=raw, k=k2); s.add(op="ptmul", a=neg, k=k2); s.add(op="ptmul", a=raw, k=k1)
    dt = P.oct(r.randrange(20)) + [0]
    for fn in ("sha256", "double_sha256", "get_checksum", "ripemd160", "hash160"): s.add(op="hash", fn=fn, data=dt, form="bytes", impl="platform"); s.add(op="hash", fn=fn, data=dt[::-1], form="hex", impl="platform")
    for chk in (False, True): s.add(op="b58enc", chk=chk, data=dt, alpha=al); s.add(op="b58enc", chk=chk, data=dt, alpha=C(XRP)); s.add(op="b58dec", chk=chk, text=b58c(dt), alpha=al); s.add(op="b58dec", chk=chk, text=b58c(dt), alpha=C(XRP))
    for o in (dt, dt[::-1]):
        for little in (False, True): s.add(op="i2b", n=o, width=NONE, little=little); s.add(op="i2b", n=o, width=[40], little=little); s.add(op="b2i", data=o, little=little)
        s.add(op="b2s", data=o, form="bytes"); s.add(op="b2s", data=o, form="hex"); s.add(op="s2b", text=C(bytes(o).hex()), form="hex"); s.add(op="s2b", text=C(bytes(o).hex()), form="utf8")
    for e in s.ev: e.pop("how", None)
    return s.ev
HISTORY = ["seed", "newobjects", "gc", "decimal", "cwd", "locale"]
def c19(P):
    """Every call is made alone in a process; then all of them after one another, in both directions, in
    pairs in a new process, and in long walks in which every one of some calls follows every other one."""
    r = P.r
    for g in range(P.n(4, 40)):
        calls = c19_calls(P); group = P.nid + 1; main = [e for e in calls if e["op"] in ("encrypt", "decrypt", "confirm", "create", "icode", "object")]
        def run(evs, mode="fresh"):
            s = P.script(group=group, mode=mode)
            for e, h in evs: s.ev.append(e if "op" not in e else {**e, "how": h})
        F, SH, KP = {"obj": "fresh"}, {"obj": "shared"}, {"obj": "shared", "keep": True}
        for e in calls: run([(e, F)])
        for order in (calls, calls[::-1]) + tuple(r.sample(calls, len(calls)) for _ in range(P.n(2, 6))): run([(e, SH) for e in order]); run([(e, KP) for e in r.sample(order, len(order))])
        rev = [(e, {**SH, "kw": False, "none": True, "expl": True}) for e in r.sample(calls, len(calls))]
        for k in sorted(r.sample(range(len(rev)), 10), reverse=True): rev.insert(k, ({"hist": r.choice(HISTORY)}, None))
        run(rev)
        # in threads: each call in one of its own, and the calls in four at once
        run([(e, {**SH, "thread": True}) for e in r.sample(calls, len(calls))])
        for k in range(P.n(2, 8)): run([(e, SH) for e in r.sample(main, 6)] * (k % 2) + [({"threads": 4, "shuffle": r.randrange(1, 1 << 30)}, None)] + [(e, SH if k % 2 else F) for e in r.sample(main, P.n(12, 30))])
        for _ in range(1500 if P.deep else 300): x, y = r.choice(main), r.choice(main); K = r.choice([SH, KP]); run([(x, K), (y, K)])
        for _ in range(200 if P.deep else 60): x, y = r.choice(calls), r.choice(calls); K = r.choice([SH, KP]); run([(x, K), (y, K), (x, K)])
        # a walk in which each of these calls comes directly after each other one
        few = r.sample(main, P.n(9, 20)); run([(e, SH) for e in walk(few, r)])
    inter(P, 72 if P.deep else 24)
    P.target = P.real
    s = P.script(); pw = P.pw()
    for q in range(2): i = s.encrypt("Bitcoin", "mainnet", wif(EDGE_KEYS[q], True, [128]), pw, obj="mainnet", ovr="", how={"obj": "shared"}); s.decrypt("Bitcoin", "mainnet", s.ref(i, "enc"), pw, detail=False, obj="mainnet", ovr="", how={"obj": "shared"}); s.encrypt("Bitcoin", "mainnet", wif(EDGE_KEYS[0], True, [128]), pw, obj="mainnet", ovr="", how={"obj": "shared"})
    P.target = P.scripts
def walk(xs, r):
    """A closed walk over all ordered pairs of xs (an Eulerian circuit)."""
    out = {i: r.sample(range(len(xs)), len(xs)) for i in range(len(xs))}; stack, path = [0], []
    while stack:
        if out[stack[-1]]: stack.append(out[stack[-1]].pop())
        else: path.append(stack.pop())
    return [xs[i] for i in reversed(path)]
def inter(P, k):
    """Pairs of calls for two threads; the schedules are put in by check.py.  The two differ in
    passphrase, key, compression, owner and seed; every second pair of an object in network, too."""
    r = P.r; kinds = ["encrypt", "decplain", "decec", "confirm", "create", "icode"]
    for q in range(k):
        c = r.choice(sorted(MULTI)); a, b = r.sample(list(NETS[c]), 2); shared = q % 9 != 8; nets = (a, b) if q % 2 else (a, a); comps = r.choice([(True, False), (False, True)])
        pws = P.secret(8), P.secret(8); owners = P.owner(q % 4 < 2), P.owner(q % 4 >= 2 or q % 3 == 0); group = P.nid + 1
        k1 = kinds[q % 6]; k2 = k1 if q < 12 else kinds[(q % 6 + q // 6) % 6]; s = S(P, {"events": []}); given = []
        for side, kind in enumerate((k1, k2)):
            net, comp, pw, o = nets[side], comps[side], pws[side], owners[side]; kw = dict(obj=a, ovr="" if net == a else net); sd = P.oct(24); key = P.key()
            use = pws[0] if side == 1 and r.random() < .1 else pw
            q1 = lambda f, kd: {"forged": P.req(kind=kd, field="", coin=c, net=net, key=key, lot=o[0], seq=o[1], salt=o[2], comp=comp, seed=sd, **{"pass": pw}), "field": f}
            if kind == "encrypt": s.encrypt(c, net, wif(key, comp, NETS[c][net][0]), pw, **kw)
            elif kind == "decplain": s.decrypt(c, net, q1("enc", "plain"), use, detail=True, **kw)
            elif kind == "decec": s.decrypt(c, net, q1("enc", "ec"), use, detail=True, **kw)
            elif kind == "confirm": s.confirm(c, net, q1("cfrm", "ec"), use, detail=True, **kw)
            elif kind == "create": s.create(c, net, q1("code", "code"), wt(comp), sd, form="hex", **kw)
            else: s.icode(pw, *o, form="hex")
        for e in s.ev: P.script(group=group, mode="fresh").ev.append({**e, "how": {"obj": "fresh"}})
        P.script(group=group, mode="interleave", seed=r.random()).ev.extend({**e, "how": {"obj": "shared" if shared else "fresh"}} for e in s.ev)

# --------------------------------------------------------------------------- C20 .. C23
def c20(P):
    r = P.r
    def two(s, f, *a): f(*a, detail=True); f(*a, detail=False)
    def one(c, n, w, key, comp, pw, o, seed):
        s = P.script(); i = s.encrypt(c, n, wif(key, comp, w), pw); t = s.ref(i, "enc")
        for x in (pw, P.secret(5)):
            k = s.nets(n, c)
            for d in (True, False): s.decrypt(c, n, t, x, detail=d, **k)
        s = P.script(); ci, j = s.ec_trip(c, n, pw, *o, comp, seed, confirm=False, decrypt=False)
        for x in (pw, P.secret(5)):
            k = s.nets(n, c)
            for d in (False, True): s.decrypt(c, n, s.ref(j, "enc"), x, detail=d, **k); s.confirm(c, n, s.ref(j, "cfrm"), x, detail=d, **k)
    for c, n, w, _ in RIPPLE + main_coins(P, 60): one(c, n, w, P.key(), r.random() < .5, P.pw(), P.owner(), P.oct(24))
    for _ in range(P.n(10, 400)): c, n, w, _ = P.pair(); one(c, n, w, P.key(), r.random() < .5, P.pw(), P.owner(), r.choice([P.oct(24), NONE]))
    for _, v in P.corners("plain"):
        s = P.script(); i = s.encrypt("Bitcoin", "mainnet", wif(v["key"], v["comp"], [128]), v["pass"], obj="mainnet", ovr="")
        for d in (True, False): s.decrypt("Bitcoin", "mainnet", s.ref(i, "enc"), v["pass"], detail=d, obj="mainnet", ovr="")
    for _, v in P.corners("ec"): P.script().ec_trip("Bitcoin", "mainnet", v["pass"], v["lot"], v["seq"], v["salt"], v["comp"], v["seed"])
    for c, n, w, _ in main_coins(P, 20):
        s = P.script(); code, enc, cfrm = s.fec(c, n, C("pw"), *P.owner(), r.random() < .5, P.oct(24)); t = s.fplain(c, n, P.key(), r.random() < .5, C("pw")); k = s.nets(n, c)
        for d in (True, False): s.decrypt(c, n, enc, C("pw"), detail=d, **k); s.confirm(c, n, cfrm, C("pw"), detail=d, **k); s.decrypt(c, n, t, C("pw"), detail=d, **k)
    # lots: the same owner with and without them
    for l in (NONE, [100000], [999999], [524288]):
        for q in ([0], [4095], [77]):
            s = P.script(); o = (l, q if l != NONE else NONE, P.oct(4 if l != NONE else 8)); s.ec_trip("Bitcoin", r.choice(["mainnet", "testnet"]), P.pw(), *o, r.random() < .5, P.oct(24))
    # refused one way, refused the other
    pw = P.secret()
    for _ in range(P.n(6, 60)):
        s = P.script(); i = s.encrypt("Bitcoin", "mainnet", wif(P.key(), True, [128]), pw, obj="mainnet", ovr=""); _, j = s.ec_trip("Bitcoin", "mainnet", pw, *P.owner(), True, P.oct(24), confirm=False, decrypt=False)
        for k in range(8):
            ed = r.choice(edits_of(P, 58)) if k % 2 else [["rxor", r.randrange(3), [1 << r.randrange(8)]]]; n = r.choice(["mainnet", "testnet", "nonet"]); ov = dict(obj="mainnet", ovr="" if n == "mainnet" else n)
            for d in (True, False): s.decrypt("Bitcoin", n, s.ref(i, "enc", *ed), pw, detail=d, **ov); s.decrypt("Bitcoin", n, s.ref(j, "enc", *ed), pw, detail=d, **ov); s.confirm("Bitcoin", n, s.ref(j, "cfrm", *ed), pw, detail=d, **ov)
    real_some(P, 2, 2)
def c21(P):
    r = P.r; pw = P.pw()
    for ln in [k for k in range(1, 40)] + [48, 64, 96]:
        for lots in (False, True):
            for form in (("bytes", "hex") if ln < 20 or P.deep else (r.choice(["bytes", "hex"]),)):
                l, q = P.lots() if lots else (NONE, NONE); s = P.script(); i = s.icode(pw, l, q, r.choice([P.oct, lambda n: [0] * n])(ln), form=form)
                if ln in (4, 8): s.create("Bitcoin", "mainnet", s.ref(i, "code"), WIF, P.oct(24))
        for form in ("bytes", "hex"):
            s = P.script(); i = s.icode(pw, *P.owner()); s.create(*P.pair()[:2], s.ref(i, "code"), wt(r.random() < .5), r.choice([P.oct, lambda n: [0] * n])(ln), form=form)
    for k in range(P.n(60, 600)):          # patterns
        l, q = P.lots() if k % 2 else (NONE, NONE); s = P.script(); i = s.icode(pw, l, q, odd_octets(r, 4 if l != NONE and r.random() < .5 else 8)); s.create(*P.pair()[:2], s.ref(i, "code"), wt(r.random() < .5), odd_octets(r, 24))
    s = P.script(); i = s.icode(pw, *P.owner())
    for t in ["WIF", "wif ", "Wif-compressed", "wif_compressed", "wif-uncompressed", "compressed", "uncompressed", "wif-compressed ", "wif-compresse", "None", "0", "p2pkh", "\u0000", "w", "wi", "wiff"]:
        s.create("Bitcoin", "mainnet", s.ref(i, "code"), C(t), P.oct(24)); s.create("Bitcoin", "mainnet", s.ref(i, "code"), C(t), NONE)
        P.script().add(op="towif", key=P.key(), wtype=C(t), coin="Bitcoin", net="mainnet", form="hex")
    s = P.script()
    for k in ("int", "dict", "object", "exception", "driver", "coinlike"):
        for kw in (True, False): s.add(op="badcoin", **{"class": k}, obj="mainnet", how={"kw": kw})
    for lots in (False, True):
        for k in range(3): P.script().icode(pw, *P.owner(lots), form="badhex")
    for k in range(4): s = P.script(); i = s.icode(pw, *P.owner()); s.create(*P.pair()[:2], s.ref(i, "code"), wt(r.random() < .5), P.oct(r.choice([24, 24, 12, 25])), form="badhex")
    s = P.script()
    for c in P.sample(sorted(NETS), 30, len(NETS)):
        for u in ["testnet7", "Mainnet", "x", "main net"]: s.object(c, u)
    # a passphrase and salt whose factor is none give a code nobody can use; the extreme factors are fine
    for f in NOFACTORS: P.script().icode(steer(b32(f)), NONE, NONE, P.oct(8)); P.script().icode(steer(b32(f)), *P.owner(True))
    for f in FACTORS: P.script().ec_trip(*P.pair()[:2], steer(b32(f)), NONE, NONE, P.oct(8), r.random() < .5, P.oct(24), both=False)
    # what is issued can be used: everything, with odd but allowed parameters
    ec_family(P, main_coins(P, 40), EDGE_PW[::2], P.sample(P.corners("ec"), 50, 200), both=False)
    for c, n, _, _ in main_coins(P, 30): drawn_ec(P, c, n)
    for _ in range(P.n(30, 800)): drawn_ec(P, *P.pair()[:2])
    plain_family(P, P.sample(COINS, 20, 180), EDGE_KEYS[::3], [], [])
    real_some(P, 1, 3)
def c22(P):
    r = P.r
    nums = [0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 2**24 - 1, 2**24, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**127, 2**128 - 1, 2**128, 2**255, 2**256 - 1, 2**256, N, 10**40, 10**4400 + 7, 2**16000 - 1] + [r.getrandbits(r.randrange(1, 520)) for _ in range(P.n(150, 3000))] + [r.getrandbits(8) << (8 * r.randrange(1, 30)) for _ in range(40)]
    for n in nums:
        o = list(n.to_bytes((n.bit_length() + 7) // 8, "big")); m = max(1, len(o)); s = P.script()
        for little in (False, True):
            s.add(op="i2b", n=o, width=NONE, little=little, how={"none": r.random() < .5, "expl": r.random() < .5})
            for w in {m, m + 1, m + r.randrange(2, 40), max(1, m - 1), max(1, m - r.randrange(1, 5)), 32}:
                if r.random() < .6: s.add(op="i2b", n=o, width=[w], little=little, how={"expl": r.random() < .5})
    for n in nums + [127, 128, 129, 32767, 32768, 32769, 2**63 - 1, 2**63 + 1, 2**255 - 1, 2**255 + 1]:
        o = list(n.to_bytes((n.bit_length() + 7) // 8, "big")); m = max(1, len(o)); s = P.script()
        for neg in (False, True):
            for w in (NONE, [m], [m + 1], [max(1, m - 1)]):
                if n or not neg: s.add(op="si2b", n=o, neg=neg, width=w, little=r.random() < .5)
    for t in ("\ud800", "a\udfffb", "\ude00\ud83d", "abc\udc80"): P.script().add(op="s2b", text=C(t), form="utf8")
    for d in [[128] + [0] * k for k in range(5)] + [[127] + [255] * k for k in range(5)] + [[255] * k for k in range(1, 6)]: 
        s = P.script()
        for little in (False, True): s.add(op="sb2i", data=d, little=little)
    for d in [[0] * k for k in range(0, 6)] + [P.oct(n) for n in range(0, P.n(70, 300))] + [list(r.randbytes(n)) for n in (1790, 2000, 5000)] + [[0] * r.randrange(1, 5) + P.oct(r.randrange(0, 40)) + [0] * r.randrange(0, 4) for _ in range(P.n(60, 800))] + [[0x0a], [0xa0], [0, 0x0a], [0x12, 0x34], [0xab, 0xcd, 0xef], [0x30, 0x31]]:
        s = P.script()
        for little in (False, True): s.add(op="b2i", data=d, little=little, how={"expl": r.random() < .5})
        s.add(op="rev", data=d); s.add(op="sb2i", data=d, little=r.random() < .5, how={"expl": r.random() < .5})
        for f in ("bytes", "hex"): s.add(op="b2s", data=d, form=f)
        h = bytes(d).hex(); s.add(op="s2b", text=C(h), form="hex"); s.add(op="s2b", text=C(h.upper()), form="hex"); s.add(op="s2b", text=C(h), form="bytes")
    for t in ["", "a", "abcd", "TestingOneTwoThree", "\u00e9", "\U0001f511", "\u03d2\u0301", "00", "0x00", "\0", "1Jq6MksXQVWzrznvZzxkV6oY57oWXD9TXB"] + [txt(P.pw()) for _ in range(P.n(20, 300))]: P.script().add(op="s2b", text=C(t), form="utf8")
    # the same octets as text and raw, wherever the library takes them
    forms = ["bytes", "hex", "HEX"]
    for k in range(P.n(40, 600)):
        c, n, w, a = P.pair(); pw = P.pw(); lots = r.random() < .5; l, q, salt = P.owner(lots); s = P.script()
        if r.random() < .3: salt = [0] * r.randrange(1, len(salt)) + salt; salt = salt[:8 if not lots else r.choice([4, 8])]
        i = [s.icode(pw, l, q, salt, form=f) for f in r.sample(forms, 3)][0]
        sd = r.choice([P.oct(24), [0] * 23 + [5], [0] * 24, [0] * 3 + P.oct(21)]); ty = wt(r.random() < .5)
        for f in r.sample(forms, 3): s.create(c, n, s.ref(i, "code"), ty, sd, form=f, obj=n, ovr="")
    for k in range(P.n(30, 400)):
        s = P.script(); key = P.key(); d = P.oct(r.randrange(0, 80))
        for f in forms: s.add(op="wifenc", key=key, prefix=[128], form=f); s.add(op="towif", key=key, wtype=WIF, coin="Bitcoin", net="mainnet", form=f)
        pub = r.choice([pub_of(key, True), pub_of(key, False)])
        for f in forms + ["object"]: s.add(op="addrenc", pub=list(pub), prefix=[0], ptype=C("compressed"), alpha=C(AL), form=f, how={"pubform": f})
        for f in forms:
            for fn in ("sha256", "double_sha256", "ripemd160", "hash160", "get_checksum"): s.add(op="hash", fn=fn, data=d, form=f, impl="platform")
def c23(P):
    """Everything that is refused, with secrets long enough to be recognised."""
    r = P.r
    def unusual(k):
        return P.secret(16) if r.random() < .7 else C("".join(chr(r.choice([233, 228, 246, 0x416, 0x4e2d, 0x1f511]) if r.random() < .3 else ord(r.choice("bcdfghjkmnpqvwxyz"))) for _ in range(12)))
    for k in range(P.n(40, 500)):
        c, n, w, a = P.pair() if k % 2 else r.choice([y for y in COINS if len(NETS[y[0]]) > 1]); pw = unusual(k); key = b32(r.randrange(2**200, N)); comp = r.random() < .5; d, m, x, b = P.pair(); o = P.owner(); sd = P.oct(24); s = P.script()
        t = wif(key, comp, w); i = s.encrypt(c, n, t, pw); ci, j = s.ec_trip(c, n, pw, *o, comp, sd, both=False)
        e, e2, cf, co = s.ref(i, "enc"), s.ref(j, "enc"), s.ref(j, "cfrm"), s.ref(ci, "code"); wrong = unusual(k)
        s.decrypt(c, n, e, wrong); s.decrypt(c, n, e2, wrong); s.confirm(c, n, cf, wrong)
        for m_ in [y for y in NETS[c] if y != n][:2]: s.decrypt(c, m_, e, pw); s.decrypt(c, m_, e2, pw, detail=r.random() < .5); s.confirm(c, m_, cf, pw)
        s.decrypt(d, m, e, pw); s.decrypt(d, m, e2, pw); s.confirm(d, m, cf, pw); s.encrypt(d, m, t, pw)
        s.encrypt(c, n, t[:-1], pw); s.encrypt(c, n, t + [49], pw); s.encrypt(c, n, t[:20] + [48] + t[21:], pw); s.encrypt(c, n, t + [0x4e2d], pw); s.encrypt(c, n, t[:9] + [r.choice(C(AL))] + t[10:], pw)
        s.encrypt(c, n, b58c(w + key + [2]), pw); s.encrypt(c, n, b58c(w + key[:-1]), pw); s.encrypt(c, n, b58c(w + key + [1, 1]), pw); s.encrypt(c, n, wif(b32(N + r.randrange(2**64)), comp, w), pw)
        for ed in r.sample(edits_of(P, 58), 4) + [["rxor", 2, [1]]] * 0: s.decrypt(c, n, {**e, "edits": ed}, pw); s.decrypt(c, n, {**e2, "edits": ed}, pw); s.confirm(c, n, {**cf, "edits": ed}, pw); s.create(c, n, {**co, "edits": ed}, wt(comp), sd)
        for b_ in range(3): s.decrypt(c, n, s.ref(i, "enc", ["rxor", b_, [1 << r.randrange(8)]]), pw); s.decrypt(c, n, s.ref(j, "enc", ["rxor", b_, [1 << r.randrange(8)]]), pw); s.confirm(c, n, s.ref(j, "cfrm", ["rxor", r.randrange(6), [1 << r.randrange(8)]]), pw)
        s.decrypt(c, n, s.ref(i, "enc", ["rxor", 7 + r.randrange(32), [1]]), pw); s.decrypt(c, n, s.ref(j, "enc", ["rxor", 7 + r.randrange(32), [1]]), pw); s.confirm(c, n, s.ref(j, "cfrm", ["rxor", 10 + r.randrange(41), [1]]), pw)
        s.create(c, n, s.ref(ci, "code", ["rxor", r.randrange(17), [4]]), wt(comp), sd); s.create(c, n, co, C("bad type"), sd)
        for ln in (12, 23, 25, 32, 48): s.create(c, n, co, wt(comp), P.oct(ln), form=r.choice(["bytes", "hex"]))
        for ln in (7, 9, 12, 16, 32): s.icode(pw, NONE, NONE, P.oct(ln), form=r.choice(["bytes", "hex"]))
        s.icode(pw, [5], [5], P.oct(4)); s.icode(pw, [100000], NONE, P.oct(8)); s.icode(pw, [100000], [5000], P.oct(8))
        for u in ("nonet", "Mainnet"):
            s.decrypt(c, u, e, pw, obj=n, ovr=u); s.encrypt(c, u, t, pw, obj=n, ovr=u); s.confirm(c, u, cf, pw, obj=n, ovr=u); s.create(c, u, co, wt(comp), sd, obj=n, ovr=u)
        for tt in (t, t[:-1], t + [48], b58c(w + key + [7]), b58c(w + key[:-2])): s.add(op="wifdec", text=tt, prefix=[(w[0] + 1) % 256]); s.add(op="wifread", text=tt, coin=d, net=m, how={"which": r.randrange(3)}); s.add(op="wifdec", text=tt, prefix=w)
        for ln in (16, 31, 33, 64): s.add(op="wifenc", key=P.oct(ln), prefix=[128], form=r.choice(["bytes", "hex"])); s.add(op="keypub", key=P.oct(ln))
        s.add(op="towif", key=key, wtype=WIFC, coin=c, net=n, form="badhex"); s.add(op="wifenc", key=key, prefix=[128], form="badhex"); s.create(c, n, co, wt(comp), sd, form="badhex")
        s.add(op="keypub", key=b32(N + r.randrange(2**100))); s.add(op="towif", key=key, wtype=C("other"), coin=c, net=n, form="hex"); s.add(op="towif", key=key[:-1], wtype=WIF, coin=c, net=n, form="hex")
        # a plain record whose key is none
        bad = b32(N + r.randrange(2**90)); s.decrypt("Bitcoin", "mainnet", {"forged": P.req(kind="plain", coin="Bitcoin", net="mainnet", key=bad, comp=True, ah=P.oct(4), **{"pass": pw}), "field": "enc"}, pw)
    P.target = P.real
    s = P.script(); pw = P.secret(); i = s.encrypt("Bitcoin", "mainnet", wif(P.key(), True, [128]), pw, obj="mainnet", ovr=""); s.decrypt("Bitcoin", "mainnet", s.ref(i, "enc"), P.secret()); s.decrypt("Bitcoin", "testnet", s.ref(i, "enc"), pw, obj="testnet", ovr="")
    P.target = P.scripts

# --------------------------------------------------------------------------------- C24
def c24(P):
    """Whatever the other properties do, with what it leaves behind recorded."""
    r = P.r; kept = []; deep, P.deep = P.deep, False
    for k in [*range(1, 18), 20, 21, 22, 23]:
        P.scripts, P.runs = [], []; P.target = P.scripts
        globals()["c%02d" % k](P)
        ok = [s for s in P.scripts if s.get("mode") not in ("interleave",) and not any(x in e for e in s["events"] for x in ("threads", "fork", "hist"))]
        r.shuffle(ok); n = 0; budget = 2400 if deep else 260
        for s in ok:
            if n + len(s["events"]) > budget: continue
            kept.append(s); n += len(s["events"])
    P.deep = deep; P.scripts = []; few = []; P.runs = [(kept, ["--effects"]), (few, ["--effects", "--no-openssl-ripemd"])]; P.real = []
    P.target = kept
    for c, n, *_ in P.sample(COINS, 20): P.script().object(c, n)
    P.script().add(op="import")
    P.target = few; P.script().add(op="import")      # a platform without RIPEMD-160
    for fn in ("ripemd160", "hash160"): P.script().add(op="hash", fn=fn, data=P.oct(20), form="hex", impl="bundled")
    for c, n, w, a in P.sample(COINS, 4): P.script().plain_trip(c, n, P.key(), True, P.pw())
MAKE = {"C%02d" % k: globals()["c%02d" % k] for k in range(1, 25)}
def plan(prop, tier, seed):
    P = Plan(prop, tier, seed); MAKE[prop](P); return P
