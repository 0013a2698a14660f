#!/usr/bin/env python3
"""setup: compiles the overrides and cross-checks them against the definitions of the specification.

Every primitive is evaluated twice by TLC, from its TLA+ definition alone and through
java/Overrides.java; both must agree with each other and, where Python's standard library has the
function too, with that.  The inputs are fixed.
"""
import sys, os, random, hashlib, unicodedata, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
FP = 2**256 - 2**32 - 977
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def add(p, q):
    if p is None: return q
    if q is None: return p
    if p[0] == q[0] and (p[1] + q[1]) % FP == 0: return None
    l = (3 * p[0] * p[0] * pow(2 * p[1], -1, FP) if p == q else (q[1] - p[1]) * pow(q[0] - p[0], -1, FP)) % FP
    x = (l * l - p[0] - q[0]) % FP
    return x, (l * (p[0] - x) - p[1]) % FP
def mul(k, p):
    r = None
    while k:
        if k & 1: r = add(r, p)
        p = add(p, p); k >>= 1
    return r
B = lambda n: list(n.to_bytes(32, "big"))
P = lambda p: [] if p is None else B(p[0]) + B(p[1])
AL = [ord(c) for c in "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"]
def b58(o):
    n = int.from_bytes(bytes(o), "big"); s = []
    while n: n, d = divmod(n, 58); s.insert(0, AL[d])
    return [49] * (len(o) - len(bytes(o).lstrip(b"\0"))) + s
def inputs():
    r = random.Random(5); q = []
    def a(fn, *args, want=None, **kw): q.append(({"fn": fn, "a": list(args), "n": 0, "p": [], **kw}, None if want is None else list(want)))
    R = lambda n: list(r.randbytes(n))
    for n in (0, 1, 3, 31, 32, 33, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 128, 200):
        m = R(n); a("sha256", m, want=hashlib.sha256(bytes(m)).digest()); a("sha256d", m, want=hashlib.sha256(hashlib.sha256(bytes(m)).digest()).digest())
        try: w = hashlib.new("ripemd160", bytes(m)).digest()
        except ValueError: w = None
        a("ripemd160", m, want=w)
    a("ripemd160", list(b"message digest"), want=bytes.fromhex("5d0689ef49d2fae572b881b123a85ffa21595f36"))
    for n, k, l in ((0, 0, 20), (8, 4, 64), (70, 8, 64), (130, 12, 33), (5, 60, 1)):
        p, s = R(n), R(k); a("pbkdf1", p, s, n=l, want=hashlib.pbkdf2_hmac("sha256", bytes(p), bytes(s), 1, l)); a("standin", p, s, n=l)
    for x in (b"kdf ", b"kdf 00ff--1a", b"kdf 0", b"kdf 0a1", b"kdf 0A1b-01-g0" + b"3c" * 9, b"kdf" + b"00" * 9, b"kdf " + b"7e" * 40): a("standin", list(x), R(8), n=16)
    a("scrypt", [], [], p=[16, 1, 1], n=64, want=hashlib.scrypt(b"", salt=b"", n=16, r=1, p=1))
    a("scrypt", list(b"pw"), list(b"salt"), p=[8, 2, 3], n=40, want=hashlib.scrypt(b"pw", salt=b"salt", n=8, r=2, p=3, dklen=40))
    a("scrypt", R(9), R(12), p=[32, 8, 2], n=64)
    # FIPS 197 appendix C.3
    k, p, c = list(range(32)), [17 * i for i in range(16)], list(bytes.fromhex("8ea2b7ca516745bfeafc49904b496089"))
    a("aesenc", k, p, want=c); a("aesdec", k, c, want=p)
    for _ in range(6): a("aesenc", R(32), R(16)); a("aesdec", R(32), R(16))
    for z in (0, 1, 5):
        for n in (0, 1, 20, 39):
            o = [0] * z + R(n); a("b58enc", o, AL, want=b58(o)); a("b58dec", b58(o), AL, want=o)
    o = R(30); al = AL[::-1]; a("b58enc", o, al); a("b58dec", [al[i % 58] for i in o], al); a("b58dec", al[:1] * 4 + al[5:20], al)
    a("inalpha", AL[3:9], AL, want=[1]); a("inalpha", AL + [48], AL, want=[0]); a("inalpha", [], AL, want=[1]); a("inalpha", [0x4e00], AL, want=[0])
    a("rebase", R(20)); a("rebase", [0, 0, 1, 0])
    for s in ("", "abc", "e\u0301", "A\u030a\u0323", "\u1100\u1161\u11a8x", "\uac00\u11a8", "\u2126\u212b", "\u0344\u0301", "\U0001d15e", "\u1e0b\u0323", "\ufb1d\u0f73", "\u0958\u09cb\u0bca", "\u0061\u05ae\u0315\u0300\u05ae\u0062", "\u03d2\u0301\0\U00010400\U0001f4a9", "\u1f82\u0300\u0300", "\u2adc"):
        a("nfc", [ord(c) for c in s], want=[ord(c) for c in unicodedata.normalize("NFC", s)])
    every = [c for c in range(0x110000) if unicodedata.combining(chr(c)) or unicodedata.decomposition(chr(c)) and not unicodedata.decomposition(chr(c)).startswith("<")]; r.shuffle(every)
    for i in range(0, len(every), 60): s = "".join("a" + chr(c) + r.choice(["", chr(r.choice(every))]) for c in every[i:i + 60]); a("nfc", [ord(c) for c in s], want=[ord(c) for c in unicodedata.normalize("NFC", s)])
    old = [c for c in range(0x20, 0x30000) if unicodedata.ucd_3_2_0.category(chr(c)) not in ("Cn", "Cs", "Co")]
    for _ in range(30): s = "".join(chr(r.choice(old)) for _ in range(40)); a("nfc", [ord(c) for c in s], want=[ord(c) for c in unicodedata.normalize("NFC", s)])
    for _ in range(12):
        s = "".join(chr(r.choice([r.randrange(0x41, 0x7b), r.randrange(0x300, 0x345), r.randrange(0xc0, 0x250), r.randrange(0x1100, 0x1113), r.randrange(0x1161, 0x1176)])) for _ in range(6)); a("nfc", [ord(c) for c in s], want=[ord(c) for c in unicodedata.normalize("NFC", s)])
    for i in range(3):
        k, l = r.randrange(1, N), r.randrange(1, N); p, s = mul(k, G), mul(l, G)
        a("pointof", [2 + p[1] % 2] + B(p[0]), want=P(p)); a("pointof", [4] + P(p), want=P(p)); a("pointof", [4] + P((p[0], p[1] ^ 1)), want=[])
        a("oncurve", P(p), want=[1]); a("oncurve", P((p[0], p[1] ^ 1)), want=[0]); a("add", P(p), P(s), want=P(add(p, s))); a("add", P(p), P(p), want=P(add(p, p)))
        a("add", P(p), P((p[0], FP - p[1])), want=[]); a("add", P(p), [], want=P(p)); a("scmul", B(k), B(l), want=B(k * l % N))
    for x in (5, 7, 10): a("pointof", [2] + B(x)); a("pointof", [3] + B(x))
    for o in ([6] + P(G), [7] + P(G), P(G), [2] + B(FP), [3] + B(FP + 1), [2] + [255] * 32, [5] + B(G[0]), [4] + P(G)[:-1], [4] + P(G) + [0], [4] + B(FP + 1) + B(G[1]), [2], [], [4] + [0] * 64, [2] + [0] * 32): a("pointof", o, want=[])
    for k in (1, 2, 3, 20): a("mul", P(G), B(k), want=P(mul(k, G)))
    a("mul", P(mul(11, G)), B(N - 1), want=P((mul(11, G)[0], FP - mul(11, G)[1])), slow=1); a("mul", P(G), B(0), want=[]); a("scmul", B(N - 1), B(N - 1), want=B(1)); a("scmul", B(2**256 - 1), B(2**256 - 1))
    a("flat", R(3), [], R(2)); a("flat"); a("xor", R(16), R(16)); a("codes", list(range(32, 127)), want=range(32, 127)); o = R(9); a("hex", o, want=bytes(o).hex().encode()); a("unhex", list(bytes(o).hex().encode()), want=o)
    a("leaks", list(b"no such thing"), list(b"such that"), [], n=6, want=[1]); a("leaks", list(b"no such thing"), list(b"such that"), list(b"a such th"), n=6, want=[0]); a("leaks", list(b"abc"), list(b"xabcx"), [], n=4, want=[0]); a("leaks", [], [], [], n=1, want=[0])
    return q
def values(w, n, pure):
    lines, ok, gen, full = vt.tlc(w, "Prims", vt.real_cfg("scrypt"), {"INPUTS": w.path("in.nd")}, timeout=1200, pure=pure)
    if not ok: raise vt.Broken("Prims: " + full[-3000:])
    out = {}
    for l in lines:
        m = re.match(r'^"P (\d+) <<(.*)>>"$', l)
        if m: out[int(m[1])] = [int(x) for x in m[2].split(",")] if m[2].strip() else []
    if len(out) != n: raise vt.Broken("Prims answered %d of %d\n%s" % (len(out), n, full[-2000:]))
    return out
def cross_check(slow):
    q = [(x, w) for x, w in inputs() if slow or not x.pop("slow", 0)]; w = vt.Work("prims"); bad = 0
    try:
        vt.ndjson(w.path("in.nd"), [x for x, _ in q])
        fast, pure = values(w, len(q), False), values(w, len(q), True)
    finally: w.close()
    for i, (x, want) in enumerate(q, 1):
        if fast[i] != pure[i] or (want is not None and pure[i] != want):
            bad += 1; print("primitive %s differs on %s:\n  definition %s\n  override   %s\n  published  %s" % (x["fn"], x["a"], pure[i], fast[i], want))
    if bad: raise vt.Broken("%d primitives differ" % bad)
    print("setup: %d values of %d primitives agree" % (len(q), len({x["fn"] for x, _ in q})))
if __name__ == "__main__":
    vt.ensure_java()
    cross_check(len(sys.argv) > 1)
