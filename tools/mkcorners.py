#!/usr/bin/env python3
"""Searches inputs for which a value computed on the way begins (or ends) with zero octets,
and writes harness/corners.json (committed).  They are inputs only: what they must lead to
is judged by the specification.  Run with /opt/venv/bin/python (pyaes, ecdsa, scrypt)."""
import hashlib, random, json, sys, multiprocessing as mp
import pyaes
from ecdsa.ecdsa import generator_secp256k1 as G
import scrypt
N = int(G.order()); AL = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
sha = lambda b: hashlib.sha256(b).digest()
dsha = lambda b: sha(sha(b))
def b58(b):
    n = int.from_bytes(b, "big"); s = ""
    while n: n, r = divmod(n, 58); s = AL[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s
h160 = lambda b: hashlib.new("ripemd160", sha(b)).digest()
def standin(p, s, n, r, q, l):
    be = lambda v: v.to_bytes(4, "big")
    return hashlib.pbkdf2_hmac("sha256", be(len(p)) + p + be(n) + be(r) + be(q) + be(l), s, 1, l)
def real(p, s, n, r, q, l): return scrypt.hash(p, s, n, r, q, l)
def ser(P, c):
    x, y = int(P.x()).to_bytes(32, "big"), int(P.y()).to_bytes(32, "big")
    return bytes([2 + y[31] % 2]) + x if c else b"\4" + x + y
aes = lambda k, b: bytes(pyaes.AESModeOfOperationECB(k).encrypt(b))
xor = lambda a, b: bytes(i ^ j for i, j in zip(a, b))
def addrhash(P, c): h = b"\0" + h160(ser(P, c)); return dsha(b58(h + dsha(h)[:4]).encode())[:4]
def plain(kdf, key, comp, pw):
    P = G * int.from_bytes(key, "big")
    ah = addrhash(P, comp); d = kdf(pw, ah, 16384, 8, 8, 64)
    x0, x1 = xor(key[:16], d[:16]), xor(key[16:], d[16:32])
    return {"key": key, "x": ser(P, True)[1:], "y": ser(P, False)[33:], "hash": h160(ser(P, comp)), "ah": ah, "d": d, "d1": d[16:], "d2": d[32:], "x0": x0, "x1": x1,
            "e0": aes(d[32:], x0), "e1": aes(d[32:], x1)}
def factor(kdf, pw, salt, lots):
    if lots is None: f = kdf(pw, salt, 16384, 8, 8, 32); return f, f, salt
    oent = salt[:4] + (lots[0] * 4096 + lots[1]).to_bytes(4, "big")
    pre = kdf(pw, salt[:4], 16384, 8, 8, 32)
    return pre, dsha(pre + oent), oent
def ec(kdf, pre, f, oent, comp, seed):
    fb = dsha(seed); fi, fbi = int.from_bytes(f, "big"), int.from_bytes(fb, "big")
    k = fi * fbi % N; P = G * k; B = G * fbi; A = G * fi
    ah = addrhash(P, comp); d = kdf(ser(A, True), ah + oent, 1024, 1, 1, 64)
    x0 = xor(seed[:16], d[:16]); e0 = aes(d[32:], x0); x1 = xor(e0[8:] + seed[16:], d[16:32]); e1 = aes(d[32:], x1)
    b = ser(B, True); c0 = xor(b[1:17], d[:16]); c1 = xor(b[17:], d[16:32])
    return {"pre": pre, "f": f, "A": ser(A, True)[1:], "fb": fb, "k": k.to_bytes(32, "big"), "P": ser(P, True)[1:], "Py": ser(P, False)[33:], "Bx": b[1:], "B1": b[17:], "hash": h160(ser(P, comp)),
            "ah": ah, "d": d, "d1": d[16:], "d2": d[32:], "x0": x0, "e0": e0, "e0b": e0[8:], "x1": x1, "e1": e1, "c0": c0, "c1": c1, "f0": aes(d[32:], c0), "f1": aes(d[32:], c1)}
lead = lambda v: len(v) - len(v.lstrip(b"\0"))
trail = lambda v: len(v) - len(v.rstrip(b"\0"))
def classes(vals): 
    for n, v in vals.items():
        if lead(v): yield n + ":lead%d" % lead(v)
        if trail(v): yield n + ":trail"
def search(a):
    mode, seed, n = a; r = random.Random(seed); kdf = standin if mode == "standin" else real; out = {}
    for i in range(n):
        key = r.randbytes(32); comp = r.random() < .5; pw = bytes(r.choice(b"abcdefghij") for _ in range(6))
        for c in classes(plain(kdf, key, comp, pw)):
            out.setdefault("plain/" + c, {"kind": "plain", "key": list(key), "comp": comp, "pass": list(pw)})
        lots = None if r.random() < .5 else (r.randrange(100000, 1000000), r.randrange(4096)); salt = r.randbytes(4 if lots else 8)
        pre, f, oent = factor(kdf, pw, salt, lots)
        m = 1 if mode == "standin" else 60
        for _ in range(m):
            s = r.randbytes(24); comp = r.random() < .5
            for c in classes(ec(kdf, pre, f, oent, comp, s)):
                out.setdefault("ec/" + c, {"kind": "ec", "pass": list(pw), "salt": list(salt), "lot": [lots[0]] if lots else [-1], "seq": [lots[1]] if lots else [-1], "comp": comp, "seed": list(s)})
    return out
if __name__ == "__main__":
    res = {}
    with mp.Pool(8) as p:
        for mode, n, jobs in (("standin", 6000, 64), ("scrypt", 60, 16)):
            acc = {}
            for o in p.imap_unordered(search, [(mode, 1000 * len(mode) + i, n) for i in range(jobs)]):
                for k, v in o.items():
                    if k not in acc or json.dumps(v) < json.dumps(acc[k]): acc[k] = v
            res[mode] = acc; print(mode, len(acc), sorted(acc))
        # points and hashes that begin with zero octets, for the codecs
        r = random.Random(9); pts = {}
        for i in range(200000 // 8):
            k = r.randrange(1, N); P = G * k
            for c in classes({"x": ser(P, True)[1:], "y": ser(P, False)[33:], "hc": h160(ser(P, True)), "hu": h160(ser(P, False))}):
                pts.setdefault(c, list(k.to_bytes(32, "big")))
        res["points"] = pts; print(sorted(pts))
    json.dump(res, open("/verif/harness/corners.json", "w"))
