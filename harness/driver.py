#!/usr/bin/env python3
"""Runs scripts of calls against the library in /repo and records the histories.

usage: driver.py SCRIPTS OUT --kdf standin|scrypt [--jobs N] [--no-openssl-ripemd] [--limit S]

SCRIPTS: one script per line, {"id", "mode", "events"}; see plans.py.  OUT: one history per
line, {"id", "events"}: the events with their outcomes, in the shape spec/Session.tla and
spec/Codecs.tla define.  Nothing is judged here.
"""
import sys, os, json, re, signal, hashlib, threading, time, random, argparse, logging, warnings

REPO = os.environ.get("BIP38_REPO", "/repo")
ap = argparse.ArgumentParser()
ap.add_argument("scripts"); ap.add_argument("out")
ap.add_argument("--kdf", default="standin"); ap.add_argument("--jobs", type=int, default=8)
ap.add_argument("--no-openssl-ripemd", action="store_true"); ap.add_argument("--limit", type=int, default=600)
ap.add_argument("--freeze", action="store_true"); ap.add_argument("--effects", action="store_true")
A = ap.parse_args()

# ------------------------------------------------------------- the KDF stand-in (spec/Scrypt.tla)
import scrypt as _scrypt
HITS = [0]
HOOK = []                     # called around every key derivation (preemption points)
def _oct(x): return x.encode("utf-8") if isinstance(x, str) else bytes(x)
def _standin(password, salt, N=1 << 14, r=8, p=1, buflen=64):
    HITS[0] += 1
    for f in HOOK: f("kdf")
    pw = _oct(password); be = lambda v: int(v).to_bytes(4, "big")
    o = bytearray(hashlib.pbkdf2_hmac("sha256", be(len(pw)) + pw + be(N) + be(r) + be(p) + be(buflen), _oct(salt), 1, buflen))
    if pw[:4] == b"kdf ":
        for i in range(min(len(o), len(pw) // 2 - 2)):
            x = pw[4 + 2 * i:6 + 2 * i]
            if all(c in b"0123456789abcdef" for c in x): o[i] = int(x, 16)
    return bytes(o)
def _hl_standin(password, *, salt, n, r, p, maxmem=0, dklen=64): return _standin(password, salt, n, r, p, dklen)
if A.kdf == "standin":
    _scrypt.hash = _standin
    hashlib.scrypt = _hl_standin
if A.no_openssl_ripemd:
    _new = hashlib.new
    def _nonew(name, *a, **k):
        if str(name).lower().replace("-", "") in ("ripemd160", "rmd160"): raise ValueError("unsupported hash type " + str(name))
        return _new(name, *a, **k)
    hashlib.new = _nonew
    hashlib.algorithms_available = {x for x in hashlib.algorithms_available if "ripemd" not in x.lower() and "rmd160" not in x.lower()}

# -------------------------------------------- what a call prints, logs or warns of, per thread
SAID = threading.local()
class Said:
    """Stands for a standard stream: what is written during a call belongs to the call."""
    def __init__(self, stream): self.stream = stream
    def write(self, t):
        if getattr(SAID, "on", None) is None: return self.stream.write(t)
        SAID.on.append(str(t)[:2000])
        if FX[0] is not None: FX[0].add("streams")
        return len(t)
    def __getattr__(self, k): return getattr(self.stream, k)
sys.stdout, sys.stderr = Said(sys.stdout), Said(sys.stderr)
class Heard(logging.Handler):
    def emit(self, record):
        if getattr(SAID, "on", None) is not None: SAID.on.append(record.getMessage()[:2000])
logging.getLogger().addHandler(Heard(logging.NOTSET)); logging.getLogger().setLevel(logging.NOTSET); warnings.simplefilter("always")

# ------------------------------------------------------ octets drawn from the system, per thread
DRAWN = threading.local()
def _counted(f, size=lambda a, r: len(r)):
    def g(*a, **k):
        r = f(*a, **k); DRAWN.n = getattr(DRAWN, "n", 0) + size(a, r); return r
    return g
os.urandom = _counted(os.urandom)
if hasattr(os, "getrandom"): os.getrandom = _counted(os.getrandom)
random._urandom = os.urandom
try:
    import ssl
    ssl.RAND_bytes = _counted(ssl.RAND_bytes)
except ImportError: pass

# ------------------------------------------------------ what a call does besides returning
FX = [None]                   # parts of the world touched since the call began
class Touch:
    """Everything a call could leave behind in the process or outside it (spec/Effects.tla names the parts)."""
    ALONE = {"subprocess.Popen": "processes", "os.system": "processes", "os.exec": "processes", "os.posix_spawn": "processes", "os.spawn": "processes", "os.kill": "processes", "os.killpg": "processes", "signal.pthread_kill": "processes",
             "os.remove": "files", "os.rename": "files", "os.mkdir": "files", "os.rmdir": "files", "os.chmod": "files", "os.chown": "files", "os.link": "files", "os.symlink": "files", "os.truncate": "files", "os.utime": "files", "os.setxattr": "files",
             "tempfile.mkstemp": "files", "tempfile.mkdtemp": "files", "sqlite3.connect": "files", "syslog.syslog": "streams", "builtins.input": "streams", "os.fork": "processes", "os.forkpty": "processes", "resource.setrlimit": "limits", "os.chdir": "directory", "os.mkfifo": "files", "os.mknod": "files", "os.startfile": "processes"}
    def heard(self, ev, args):
        if FX[0] is None: return
        if ev in ("os.putenv", "os.unsetenv"): FX[0].add("environment")
        elif ev in ("sys.addaudithook", "sys.setprofile", "sys.settrace"): FX[0].add("hooks")
        elif ev == "open":
            path, mode, flags = (tuple(args) + (None,) * 3)[:3]
            if isinstance(mode, str) and set(mode) & set("wax+") or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND): FX[0].add("files")
        elif ev in self.ALONE: FX[0].add(self.ALONE[ev])
        elif ev.startswith("socket.") or ev in ("urllib.Request", "http.client.connect"): FX[0].add("network")
        elif ev.startswith(("shutil.", "pty.")): FX[0].add("files")
    def state(self):
        import decimal, locale, builtins, unicodedata, hmac, gc, socket, atexit, resource, faulthandler, tracemalloc, codecs, pyaes
        d = decimal.getcontext(); CC_ = sys.modules.get("bip38.cryptocurrencies")
        mods = (builtins, os, hashlib, hmac, random, unicodedata, _scrypt, json, time, sys.modules.get("secrets"), codecs, pyaes, sys.modules.get("ecdsa"), *(sys.modules.get("ecdsa." + m) for m in ("curves", "keys", "ecdsa", "ellipticcurve", "util", "numbertheory")))
        def inside(v): return [id(v)] + [id(x) for k, x in sorted(vars(v).items()) if not k.startswith("_abc")] if isinstance(v, type) and v.__module__.split(".")[0] in ("ecdsa", "pyaes") else id(v)
        def written(fd):
            try: return os.lseek(fd, 0, os.SEEK_CUR)
            except OSError: return None
        def umask():
            for l in open("/proc/self/status"):
                if l.startswith("Umask"): return l
        return {"generator": hash(random.getstate()), "environment": dict(os.environ), "directory": os.getcwd(), "decimal": (d.prec, d.rounding, d.Emin, d.Emax, tuple(sorted(k.__name__ for k, v in d.traps.items() if v))),
                "locale": locale.setlocale(locale.LC_ALL), "signals": [signal.getsignal(k) for k in range(1, 65) if k not in (32, 33)] + [signal.pthread_sigmask(0, []), [bool(signal.getitimer(k)[1]) for k in (0, 1, 2)]], "zone": time.tzname + (time.timezone,), "descriptors": len(os.listdir("/proc/self/fd")), "filters": list(warnings.filters), "path": list(sys.path),
                "limits": (sys.getrecursionlimit(), getattr(sys, "get_int_max_str_digits", int)(), sys.getswitchinterval(), socket.getdefaulttimeout(), gc.isenabled(), gc.get_threshold(), umask(), os.getpriority(os.PRIO_PROCESS, 0), [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_STACK, resource.RLIMIT_CPU, resource.RLIMIT_AS, resource.RLIMIT_MEMLOCK)]),
                "hooks": (sys.gettrace(), sys.getprofile(), sys.excepthook, sys.unraisablehook, sys.displayhook, threading.excepthook, id(sys.stdout), id(sys.stderr), id(sys.stdin), warnings.showwarning, atexit._ncallbacks(), faulthandler.is_enabled(), tracemalloc.is_tracing(), len(gc.callbacks), list(map(id, sys.meta_path)), list(map(id, sys.path_hooks))),
                "logging": (logging.getLogger().level, list(map(id, logging.getLogger().handlers)), logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass()), id(logging.lastResort), id(logging.getLogRecordFactory())),
                "others": {m.__name__: {k: inside(v) for k, v in vars(m).items() if not k.startswith("__") and type(v) is not type(sys)} for m in mods if m is not None},
                "coins": None if CC_ is None else {k: {a: repr(b) for a, b in v.__dict__.items() if not a.startswith("__")} for k, v in vars(CC_).items() if isinstance(v, type) and issubclass(v, CC_.ICryptocurrency)},
                "threads": threading.active_count(), "streams": [written(1), written(2)]}
if A.effects:
    import ecdsa, pyaes         # what the libraries it uses do when they are imported is not its doing
TOUCH = Touch(); sys.addaudithook(TOUCH.heard) if A.effects else None
def touching(fn):
    """(what fn returns, the parts of the world it changed)"""
    if not A.effects: return fn(), None
    a = TOUCH.state(); FX[0] = fx = set()
    try: r = fn()
    finally: FX[0] = None
    b = TOUCH.state()
    def same(x, y):
        if x is None: return True                       # was not there yet
        return x == y
    b["others"] = {m: v for m, v in b["others"].items() if m in a["others"]}
    return r, sorted(fx | {k for k in a if not same(a[k], b[k])})
warnings.showwarning = (lambda m, c, f, l, file=None, line=None: SAID.on.append(str(m)[:2000]) if getattr(SAID, "on", None) is not None else None)

sys.path.insert(0, REPO)
_, IMPORTED = touching(lambda: __import__("bip38"))
import bip38
assert os.path.realpath(bip38.__file__).startswith(os.path.realpath(REPO)), bip38.__file__
from bip38 import BIP38
import bip38.cryptocurrencies as CC
import bip38.exceptions as EX
import bip38.wif as W
import bip38.utils as U
import bip38.crypto as CR
import bip38.p2pkh_address as PA
import bip38.libs.base58 as B58
from bip38.secp256k1 import PublicKey, PrivateKey, Point

class Hang(BaseException): pass
class Odd(Exception): pass
NONE = [-1]

# --------------------------------------------------------------- normal forms of values
def cps(s):
    if type(s) is not str: raise Odd("not text: %r" % type(s))
    return [ord(c) for c in s]
def octs(b):
    if type(b) is not bytes: raise Odd("not bytes: %r" % type(b))
    return list(b)
def num1(n):
    if n is None: return NONE
    if type(n) is not int or not 0 <= n < 2**31: raise Odd("not a small number: %r" % (n,))
    return [n]
def big(n, w=None):
    if type(n) is not int or n < 0: raise Odd("not a number: %r" % (n,))
    return list(n.to_bytes(w, "big")) if w else list(n.to_bytes((n.bit_length() + 7) // 8, "big"))
def opt(s): return NONE if s is None else cps(s)
def field(d, k):
    if not isinstance(d, dict) or k not in d: raise Odd("no field " + k)
    return d[k]
def txt(c): return "".join(map(chr, c))
def hexform(o, form):
    b = bytes(o)
    if form == "badhex":           # one digit is none
        h = b.hex() or "0"; i = sum(o) % len(h); return h[:i] + "gGzxO~"[i % 6] + h[i + 1:]
    return b if form == "bytes" else b.hex() if form == "hex" else b.hex().upper()

def error_text(ex):
    out, seen = [], set()
    while ex is not None and id(ex) not in seen:
        seen.add(id(ex)); out.append(str(ex))
        own = type(ex).__module__.split(".")[0] == EX.Error.__module__.split(".")[0]        # not what Python's own errors hold
        for x in (list(vars(ex).values()) + list(ex.args) if own else []) + list(getattr(ex, "__notes__", None) or ()):
            x = x if isinstance(x, str) else repr(x)
            if x not in out: out.append(x[:1500])
        ex = ex.__cause__ if ex.__cause__ is not None else (None if ex.__suppress_context__ else ex.__context__)
    return "\n".join(out)

# --------------------------------------------------------------------------- the calls
OBJ = {}
USER = {k: type(d["name"], (getattr(CC, d.get("base", "ICryptocurrency")),), {"NETWORKS": {n: {"wif_prefix": int.from_bytes(bytes(w), "big"), "address_prefix": int.from_bytes(bytes(a), "big")} for n, (w, a) in d["nets"].items()}})
        for k, d in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "usercoins.json"))).items()}
def coin(name): return USER[name] if name in USER else getattr(CC, name)
class Own(BIP38):
    """As a user may derive a class of his own."""
class Text(str): pass
class Octets(bytes): pass
def own(x, how): return x if not how.get("own") else Text(x) if type(x) is str else Octets(x) if type(x) is bytes else x
def obj(e, how):
    if how.get("own"): return Own(coin(e["coin"]), Text(e["obj"]))
    if how.get("obj") == "shared":
        k = (e["coin"], e["obj"])
        if k not in OBJ: OBJ[k] = BIP38(cryptocurrency=coin(e["coin"]), network=e["obj"])
        return OBJ[k]
    if how.get("kw", True): return BIP38(cryptocurrency=coin(e["coin"]), network=e["obj"])
    return BIP38(coin(e["coin"]), e["obj"])
def netkw(e, how):
    if e["ovr"] != "": return {"network": own(e["ovr"], how)}
    return {"network": None} if how.get("none") else {}
KEPT = [False]      # what the call returns is kept as it is and read again at the end of the script
def scramble(d):
    """A caller may do what it likes with a record it was given."""
    if isinstance(d, dict) and not KEPT[0]:
        for k in list(d): d[k] = "00"
        d["junk"] = 1

def c_object(e, how): obj(e, {**how, "obj": "fresh"}); return lambda: NONE
class Coinlike:
    """Looks like a cryptocurrency and is none."""
    NAME, ALPHABET, NETWORKS = "Coin", None, {"mainnet": {"wif_prefix": 0x80, "address_prefix": 0x00}}
CLASSES = {"int": int, "dict": dict, "object": object, "exception": Exception, "driver": BIP38, "coinlike": Coinlike}
def c_badcoin(e, how):
    k = CLASSES[e["class"]]
    if how.get("kw", True): BIP38(cryptocurrency=k, network=e["obj"])
    else: BIP38(k)
    return lambda: NONE
def c_encrypt(e, how):
    o, t, p = obj(e, how), own(txt(e["text"]), how), own(txt(e["pass"]), how)
    r = o.encrypt(wif=t, passphrase=p, **netkw(e, how)) if how.get("kw", True) else o.encrypt(t, p, *netkw(e, how).values())
    return lambda: {"enc": cps(r)}
def c_decrypt(e, how):
    o, t, p, k = obj(e, how), own(txt(e["text"]), how), own(txt(e["pass"]), how), netkw(e, how)
    if e["detail"] or how.get("expl"): k["detail"] = e["detail"]
    if how.get("kw", True): r = o.decrypt(encrypted_wif=t, passphrase=p, **k)
    else: r = o.decrypt(t, p, k.get("network"), k.get("detail", False))
    if not e["detail"]: return lambda: {"wif": cps(r)}
    def v():
        f = lambda k: field(r, k)
        x = {"wif": cps(f("wif")), "key": cps(f("private_key")), "wtype": cps(f("wif_type")), "pub": cps(f("public_key")),
             "ptype": cps(f("public_key_type")), "seed": opt(f("seed")), "addr": cps(f("address")), "lot": num1(f("lot")), "seq": num1(f("sequence"))}
        scramble(r); return x
    return v
def c_icode(e, how):
    lot = None if e["lot"] == NONE else e["lot"][0]
    seq = None if e["seq"] == NONE else e["seq"][0]
    salt = None if e["salt"] == NONE else own(hexform(e["salt"], e.get("form", "bytes")), how)
    k = {}
    if lot is not None or how.get("none"): k["lot"] = lot
    if seq is not None or how.get("none"): k["sequence"] = seq
    if salt is not None or how.get("none"): k["owner_salt"] = salt
    p = own(txt(e["pass"]), how)
    c = obj({"coin": how["coin"], "obj": how["net"]}, how) if "coin" in how else Own if how.get("own") else BIP38
    r = c.intermediate_code(passphrase=p, **k) if how.get("kw", True) else c.intermediate_code(p, lot, seq, salt)
    return lambda: {"code": cps(r)}
def c_create(e, how):
    o, t, ty = obj(e, how), own(txt(e["text"]), how), own(txt(e["wtype"]), how)
    seed = None if e["seed"] == NONE else own(hexform(e["seed"], e.get("form", "bytes")), how)
    k = netkw(e, how)
    if how.get("kw", True):
        if seed is not None or how.get("none"): k["seed"] = seed
        if not (how.get("deftype") and ty == "wif"): k["wif_type"] = ty
        r = o.create_new_encrypted_wif(intermediate_passphrase=t, **k)
    else: r = o.create_new_encrypted_wif(t, ty, seed, k.get("network"))
    def v():
        f = lambda k: field(r, k)
        x = {"enc": cps(f("encrypted_wif")), "cfrm": cps(f("confirmation_code")), "pub": cps(f("public_key")),
             "seed": cps(f("seed")), "ptype": cps(f("public_key_type")), "addr": cps(f("address"))}
        scramble(r); return x
    return v
def c_confirm(e, how):
    o, t, p, k = obj(e, how), own(txt(e["text"]), how), own(txt(e["pass"]), how), netkw(e, how)
    if e["detail"] or how.get("expl"): k["detail"] = e["detail"]
    if how.get("kw", True): r = o.confirm_code(passphrase=p, confirmation_code=t, **k)
    else: r = o.confirm_code(p, t, k.get("network"), k.get("detail", False))
    if not e["detail"]: return lambda: {"addr": cps(r)}
    def v():
        f = lambda k: field(r, k)
        x = {"pub": cps(f("public_key")), "ptype": cps(f("public_key_type")), "addr": cps(f("address")), "lot": num1(f("lot")), "seq": num1(f("sequence"))}
        scramble(r); return x
    return v

def c_b58enc(e, how):
    f = B58.check_encode if e["chk"] else B58.encode
    a = txt(e["alpha"]); d = bytes(e["data"])
    d = own(d, how); r = f(d) if how.get("defalpha") else f(d, a) if not how.get("kw") else f(d, alphabet=a)
    return lambda: {"t": cps(B58.ensure_string(r))}
def c_b58dec(e, how):
    f = B58.check_decode if e["chk"] else B58.decode
    a = txt(e["alpha"]); t = own(txt(e["text"]), how)
    r = f(t) if how.get("defalpha") else f(t, a) if not how.get("kw") else f(t, alphabet=a)
    return lambda: {"o": octs(r)}
def prefix(o): return int.from_bytes(bytes(o), "big")
def c_wifenc(e, how):
    k = own(hexform(e["key"], e.get("form", "bytes")), how)
    r = W.encode_wif(k) if how.get("defprefix") else W.encode_wif(private_key=k, wif_prefix=prefix(e["prefix"]))
    def v():
        if type(r) not in (tuple, list) or len(r) != 2: raise Odd("not a pair")
        return {"wif": cps(r[0]), "wifc": cps(r[1])}
    return v
def c_wifdec(e, how):
    t = own(txt(e["text"]), how)
    r = W.decode_wif(t) if how.get("defprefix") else W.decode_wif(wif=t, wif_prefix=prefix(e["prefix"]))
    def v():
        if type(r) not in (tuple, list) or len(r) != 3: raise Odd("not a triple")
        return {"key": octs(r[0]), "wtype": cps(r[1]), "chk": octs(r[2])}
    return v
def c_towif(e, how):
    r = W.private_key_to_wif(private_key=hexform(e["key"], e.get("form", "hex")), wif_type=txt(e["wtype"]), cryptocurrency=coin(e["coin"]), network=e["net"])
    return lambda: {"t": cps(r)}
def c_wifread(e, how):
    k = dict(wif=txt(e["text"]), cryptocurrency=coin(e["coin"]), network=e["net"])
    rs = []
    for f in (W.wif_to_private_key, W.get_wif_type, W.get_wif_checksum):
        try: rs.append((None, f(**k)))
        except Exception as ex: rs.append((ex, None))
    bad = [ex for ex, _ in rs if ex is not None]
    if len(bad) not in (0, 3): return lambda: (_ for _ in ()).throw(Odd("the three readers disagree"))
    if bad: raise bad[how.get("which", 0)]
    return lambda: {"key": cps(rs[0][1]), "wtype": cps(rs[1][1]), "chk": cps(rs[2][1])}
def c_addrenc(e, how):
    p = e["pub"]; form = how.get("pubform", "bytes")
    pub = PublicKey.from_bytes(bytes(p)) if form == "object" else hexform(p, form)
    k, cls = {}, PA.P2PKHAddress
    if how.get("own"): cls = type("Mine", (cls,), {"address_prefix": prefix(e["prefix"]), "alphabet": txt(e["alpha"])}); how = {**how, "defprefix": True, "defalpha": True}
    if not how.get("defprefix"): k["address_prefix"] = prefix(e["prefix"])
    if not (how.get("deftype") and txt(e["ptype"]) == "compressed"): k["public_key_type"] = txt(e["ptype"])
    if not how.get("defalpha"): k["alphabet"] = txt(e["alpha"])
    r = cls.encode(public_key=pub, **k)
    return lambda: {"t": cps(r)}
def c_addrdec(e, how):
    k, cls = {}, PA.P2PKHAddress
    if how.get("own"): cls = type("Mine", (cls,), {"address_prefix": prefix(e["prefix"]), "alphabet": txt(e["alpha"])}); how = {**how, "defprefix": True, "defalpha": True}
    if not how.get("defprefix"): k["address_prefix"] = prefix(e["prefix"])
    if not how.get("defalpha"): k["alphabet"] = txt(e["alpha"])
    r = cls.decode(own(txt(e["text"]), how), **k)
    return lambda: {"h": cps(r)}
def c_hash(e, how):
    if e["impl"] == "bundled" and e["fn"] == "ripemd160" and how.get("direct"):
        import bip38.libs.ripemd160 as R
        r = R.ripemd160(bytes(e["data"]))
    else: r = getattr(CR, e["fn"])(own(hexform(e["data"], e["form"]), how))
    return lambda: {"o": octs(r)}
def ptview(p): return {"x": big(p.x(), 32), "y": big(p.y(), 32), "e": octs(p.raw_encoded()), "d": octs(p.raw())}
def pubview(k):
    p = k.point(); v = ptview(p)
    if p.raw_decoded() != p.raw(): raise Odd("raw and raw_decoded differ")
    v.update(c=octs(k.raw_compressed()), u=octs(k.raw_uncompressed()), rc=octs(k.raw("compressed")), ru=octs(k.raw("uncompressed")),
             fp=octs(PublicKey.from_point(p).raw_compressed()))
    return v
def c_keypub(e, how):
    k = PrivateKey.from_bytes(bytes(e["key"])); p = k.public_key(); p.raw_compressed()
    import bip38.secp256k1 as S
    g = S.Secp256k1.GENERATOR * int.from_bytes(bytes(e["key"]), "big"); sizes = [k.length(), p.compressed_length(), p.uncompressed_length(), S.PrivateKey.length(), S.PublicKey.compressed_length(), S.PublicKey.uncompressed_length()]
    same = S.Secp256k1.PRIVATE_KEY is PrivateKey and S.Secp256k1.PUBLIC_KEY is PublicKey and S.Secp256k1.POINT is Point
    return lambda: {**pubview(p), "raw": octs(k.raw()), "gen": octs(g.raw_encoded()), "order": big(S.Secp256k1.ORDER, 32), "sizes": list(map(int, sizes)), "classes": same}
def c_pubread(e, how):
    k = PublicKey.from_bytes(bytes(e["data"])); return lambda: pubview(k)
def c_ptread(e, how):
    p = Point.from_bytes(bytes(e["data"])); p.x(); return lambda: ptview(p)
def c_ptcoord(e, how):
    x, y = ((-1 if n else 1) * int.from_bytes(bytes(o), "big") for n, o in zip(e["neg"], (e["x"], e["y"])))
    p = Point.from_coordinates(x=x, y=y) if how.get("kw") else Point.from_coordinates(x, y); return lambda: ptview(p)
def mkpoint(o, how):
    if how.get("coords"): return Point.from_coordinates(int.from_bytes(bytes(o[:32]), "big"), int.from_bytes(bytes(o[32:]), "big"))
    if how.get("viapub"): return PublicKey.from_bytes(b"\4" + bytes(o)).point()
    return Point.from_bytes(bytes(o))
def c_ptadd(e, how):
    a, b = mkpoint(e["a"], how), mkpoint(e["b"], how)
    if how.get("radd"): s, t = b.__radd__(a), a.__radd__(b)
    else: s, t = a + b, b + a
    s.raw(); t.raw()
    return lambda: {"ab": ptview(s), "ba": ptview(t), "fp": octs(PublicKey.from_point(s).raw_compressed())}
def c_ptmul(e, how):
    a, k = mkpoint(e["a"], how), int.from_bytes(bytes(e["k"]), "big")
    s, t = a * k, k * a
    s.raw(); t.raw()
    return lambda: {"ab": ptview(s), "ba": ptview(t), "fp": octs(PublicKey.from_point(s).raw_compressed())}
def endian(e): return "little" if e["little"] else "big"
def c_i2b(e, how):
    n = int.from_bytes(bytes(e["n"]), "big"); w = None if e["width"] == NONE else e["width"][0]
    k = {}
    if w is not None or how.get("none"): k["bytes_num"] = w
    if e["little"] or how.get("expl"): k["endianness"] = endian(e)
    r = U.integer_to_bytes(n, **k); return lambda: {"o": octs(r)}
def c_b2i(e, how):
    r = U.bytes_to_integer(bytes(e["data"]), **({"endianness": endian(e)} if e["little"] or how.get("expl") else {}))
    return lambda: {"n": big(r)}
def c_si2b(e, how):
    n = int.from_bytes(bytes(e["n"]), "big") * (-1 if e["neg"] else 1); k = {} if e["width"] == NONE else {"bytes_num": e["width"][0]}
    r = U.integer_to_bytes(n, endianness=endian(e), signed=True, **k); return lambda: {"o": octs(r)}
def c_sb2i(e, how):
    r = U.bytes_to_integer(bytes(e["data"]), endian(e), True) if how.get("expl") else U.bytes_to_integer(bytes(e["data"]), endianness=endian(e), signed=True)
    if type(r) is not int: raise Odd("not a number: %r" % (r,))
    return lambda: {"neg": r < 0, "n": big(abs(r))}
def c_rev(e, how):
    r = U.bytes_reverse(bytes(e["data"])); return lambda: {"o": octs(r)}
def c_b2s(e, how):
    r = U.bytes_to_string(bytes(e["data"]) if e["form"] == "bytes" else bytes(e["data"]).hex()); return lambda: {"t": cps(r)}
def c_s2b(e, how):
    t = txt(e["text"])
    r = U.get_bytes(t, unhexlify=False) if e["form"] == "utf8" else U.get_bytes(t) if e["form"] == "hex" else U.get_bytes(bytes.fromhex(t))
    return lambda: {"o": octs(r)}

def c_import(e, how):
    return lambda: NONE
CALLS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}
LIMIT = 60 if A.kdf == "standin" else 300
BAD_OUT = {"st": "hang", "lib": False, "pass": False, "net": False, "secp": False, "v": NONE, "msg": []}

def perform(e, how, alarm=True, kept=None):
    """The outcome of one call."""
    out = dict(BAD_OUT, st="err"); KEPT[0] = kept is not None; SAID.on = said = []
    try:
        if alarm: signal.alarm(LIMIT)
        try:
            read = CALLS[e["op"]](e, how)
        except Hang: raise
        except BaseException as ex:
            out.update(lib=isinstance(ex, EX.Error), net=isinstance(ex, EX.NetworkError), secp=isinstance(ex, EX.Secp256k1Error))
            out["pass"] = isinstance(ex, EX.PassphraseError)
            SAID.on = None; out["msg"] = cps("\n".join([error_text(ex)] + said))[:4000]
            return out
        out["v"] = read(); out["st"] = "ok"
        if kept is not None: kept.append((e, read))
        return out
    except Hang:
        return dict(BAD_OUT)
    except BaseException as ex:
        return dict(BAD_OUT, st="odd", msg=cps("%s: %s" % (type(ex).__name__, ex))[:300])
    finally:
        SAID.on = None
        if alarm: signal.alarm(0)
def _alarm(*a): raise Hang()

# ------------------------------------------------------------------- texts of events
AL = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def un58(t):
    n = 0
    for c in t: n = n * 58 + AL.index(chr(c))
    return bytes(next((i for i, c in enumerate(t) if c != 49), len(t))) + n.to_bytes((n.bit_length() + 7) // 8, "big")
def en58(o):
    n = int.from_bytes(o, "big"); s = []
    while n: n, r = divmod(n, 58); s.append(ord(AL[r]))
    return [49] * (len(o) - len(o.lstrip(b"\0"))) + s[::-1]
def octet_edit(t, k, a):
    """Edits of the octets a text stands for: o... leave the checksum as it is, r... put a right one."""
    o = bytearray(un58(t)); chk = None
    if k[0] == "r": o = o[:-4]
    op = k[1:]
    if op in ("xor", "set"):
        i = a[0] if a[0] >= 0 else len(o) + a[0]
        for j, x in enumerate(a[1]): o[(i + j) % len(o)] = o[(i + j) % len(o)] ^ x if op == "xor" else x
    elif op == "rev": o[-a[0]:] = o[-a[0]:][::-1]
    elif op == "sha": o[-4:] = hashlib.sha256(bytes(o[:-4])).digest()[:4]
    elif op == "cut": del o[-a[0]:]
    elif op == "app": o += bytes(a[0])
    elif op == "ins0": o[:0] = bytes(a[0])
    elif op == "swap": o[a[0]], o[a[1]] = o[a[1]], o[a[0]]
    if k[0] == "r": o += hashlib.sha256(hashlib.sha256(bytes(o)).digest()).digest()[:4]
    return en58(bytes(o))
def edited(t, edits):
    t = list(t)
    for ed in edits:
        k, n = ed[0], max(1, len(t))
        if k in ("oxor", "oset", "orev", "osha", "ocut", "oapp", "oins0", "oswap", "rxor", "rset", "rcut", "rapp"):
            try: t = octet_edit(t, k, ed[1:])
            except (ValueError, IndexError): pass
            continue
        i = ed[1] % n
        if k == "sub": t[i:i + 1] = [ed[2]]
        elif k == "shift":           # another character of the Base58 alphabet
            al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
            if chr(t[i]) in al: t[i] = ord(al[(al.index(chr(t[i])) + ed[2]) % 58])
        elif k == "case": t[i] = ord(chr(t[i]).swapcase())
        elif k == "ins": t[i:i] = ed[2]
        elif k == "end": t += ed[2]
        elif k == "del": del t[i:i + ed[2]]
        elif k == "swap":
            j = (i + ed[2]) % n; t[i], t[j] = t[j], t[i]
        elif k == "cutto": t = t[:i]
        elif k == "dup": t = t + t
    return t
def resolve(e, done, forged=None):
    e = dict(e); how = e.pop("how", {})
    for k in ("text",):
        x = e.get(k)
        if isinstance(x, dict) and "lit" in x:
            e[k] = edited(x["lit"], x["edits"])
            if x["edits"] and e[k] == x["lit"]: return None, how
        elif isinstance(x, dict):
            src = done[x["ref"]] if x["ref"] < len(done) else None
            if src is None or src["out"]["st"] != "ok" or x["field"] not in src["out"]["v"]: return None, how
            base = src["out"]["v"][x["field"]]
            t = edited(base, x.get("edits", []))
            if x.get("edits") and t == base: return None, how
            e[k] = t
    x = e.get("seed")
    if isinstance(x, dict):            # a seed that was reported
        src = done[x["ref"]] if x["ref"] < len(done) else None
        if src is None or src["out"]["st"] != "ok" or src["out"]["v"].get(x["field"], NONE) == NONE: return None, how
        try: e["seed"] = list(bytes.fromhex(txt(src["out"]["v"][x["field"]])))
        except ValueError: return None, how
    return e, how

def run_script(s):
    """done[i] is the i-th event of the script, or None if it could not be made."""
    if s.get("mode") == "interleave": return interleaved(s)
    return continued(s, [])
def in_child(fn):
    rd, wr = os.pipe()
    def child():
        os.close(rd)
        with os.fdopen(wr, "w") as f: f.write(json.dumps(fn()))
    pid = spawn(child); os.close(wr)
    with os.fdopen(rd) as f: data = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not data: sys.stderr.write("a forked process ended with %d\n" % st); os._exit(4)
    return json.loads(data)
def continued(s, past):
    done = list(past) + [None] if past else []; kids = []; begin = len(done); kept = []
    for ev in s["events"]:
        if ev.get("op") == "forge":
            x = ev.pop("texts", {}); e, _ = resolve(ev, done)
            if e is None: done.append(None); continue
            e["out"] = {**BAD_OUT, "st": "ok", "v": x}
            done.append(e); continue
        if ev.get("op") == "text":         # a text that is not the library's
            done.append({"op": "text", "out": {"st": "ok", "v": {"t": ev["text"]}}}); continue
        if "fork" in ev:               # the rest, in so many processes that start from here, and in this one
            rest = {**s, "events": s["events"][len(done) - begin + 1:]}
            for _ in range(ev["fork"]): kids += in_child(lambda: continued(rest, done))
            done.append(None); continue
        if "threads" in ev:            # the rest, in so many threads at once, and then in this one
            rest = {**s, "events": s["events"][len(done) - begin + 1:]}; got = [[] for _ in range(ev["threads"])]; gate = threading.Barrier(len(got))
            def run(g, k):
                mine = dict(rest, events=list(rest["events"]))
                if ev.get("shuffle"): random.Random(ev["shuffle"] + k).shuffle(mine["events"])
                gate.wait(); g += continued(mine, done)
            ts = [threading.Thread(target=run, args=(g, k), daemon=True) for k, g in enumerate(got)]; iv = sys.getswitchinterval(); sys.setswitchinterval(1e-5)
            for x in ts: x.start()
            for x in ts: x.join(LIMIT)
            sys.setswitchinterval(iv)
            for g in got: kids += g
            done.append(None); continue
        if "hist" in ev:               # what happens around the calls, see plans.py
            disturb(ev["hist"]); done.append(None); continue
        e, how = resolve(ev, done)
        if e is None: done.append(None); continue
        def call(alarm=True):
            DRAWN.n = 0
            e["out"], fx = touching(lambda: perform(e, how, alarm=alarm, kept=kept if how.get("keep") and len(kept) < 60 else None))
            if fx is not None: e["fx"] = sorted({*fx, *(IMPORTED if e["op"] == "import" else ())})
            if e["op"] == "icode" and e["salt"] == NONE or e["op"] == "create" and e["seed"] == NONE: e["drawn"] = [DRAWN.n]
        if how.get("thread"):          # in a thread of its own
            x = threading.Thread(target=call, args=(False,), daemon=True); x.start(); x.join(LIMIT)
            e.setdefault("out", dict(BAD_OUT))
        else: call(threading.current_thread() is threading.main_thread())
        done.append(e)
    KEPT[0] = True
    for e, read in kept:               # the same calls' results, looked at again
        try: done.append(dict(e, out=dict(BAD_OUT, st="ok", v=read())))
        except BaseException as ex: done.append(dict(e, out=dict(BAD_OUT, st="odd", msg=cps("%s: %s" % (type(ex).__name__, ex))[:300])))
    return [dict(e, out={**e["out"], "v": NONE}) if e["op"] == "forge" else e for e in done[begin:] if e is not None and e["op"] != "text"] + kids

def disturb(what):
    if what == "seed": random.seed(12345)
    elif what == "newobjects":
        for c in ("Bitcoin", "Ripple", "Litecoin"): BIP38(coin(c), "mainnet")
    elif what == "gc":
        import gc; gc.collect()
    elif what == "decimal":
        import decimal; decimal.getcontext().prec = 3
    elif what == "cwd": os.chdir("/")
    elif what == "locale":
        import locale
        try: locale.setlocale(locale.LC_ALL, "C")
        except locale.Error: pass

# -------------------------------------------------------------------- two threads
TRACED = {}
class Sched:
    """Runs two calls in two threads, one at a time; at the ka-th distinct point of the
    first the second runs up to its kb-th, then the first runs to its end, then the second."""
    def __init__(self, pause):
        self.pause = pause; self.count = [0, 0]; self.seen = [set(), set()]
        self.go = [threading.Event(), threading.Event()]; self.idle = [threading.Event(), threading.Event()]
    def tracer(self, i):
        root = os.path.realpath(REPO) + os.sep + "bip38"
        def local(frame, ev, arg):
            if ev == "line": self.point(i, (frame.f_code.co_filename, frame.f_lineno))
            return local
        def glob(frame, ev, arg):
            f = frame.f_code.co_filename
            if f not in TRACED: TRACED[f] = os.path.realpath(f).startswith(root)
            return local if TRACED[f] else None
        return glob
    def point(self, i, key):
        if key in self.seen[i]: return
        self.seen[i].add(key)
        self.count[i] += 1
        if self.count[i] == self.pause[i]:
            self.idle[i].set(); self.go[1 - i].set()
            self.go[i].clear(); self.go[i].wait(1)
def pair(a, b, pause):
    """Outcomes of a and b, and how many points each had."""
    s = Sched(pause); out = [None, None]; me = {}
    hook = lambda k: me.get(threading.get_ident()) is not None and s.point(me[threading.get_ident()], (k, len(s.seen[me[threading.get_ident()]])))
    def body(i, ev, first):
        me[threading.get_ident()] = i
        if not first: s.go[i].wait(20)
        sys.settrace(s.tracer(i))
        try: out[i] = perform(ev[0], ev[1], alarm=False)
        finally:
            sys.settrace(None); s.idle[i].set(); s.go[1 - i].set()
    HOOK.append(hook)
    ts = [threading.Thread(target=body, args=(0, a, True), daemon=True), threading.Thread(target=body, args=(1, b, False), daemon=True)]
    for t in ts: t.start()
    for t in ts: t.join(40)
    HOOK.remove(hook)
    return [o or dict(BAD_OUT) for o in out], s.count
def interleaved(s):
    """events: two calls; schedules: [who starts, ka, kb] (0: no pause).  A new process for each schedule."""
    ab = [resolve(ev, []) for ev in s["events"]]; hist = []
    for first, ka, kb in s["schedules"]:
        x, y = (ab[0], ab[1]) if first == 1 else (ab[1], ab[0])
        rd, wr = os.pipe()
        def child():
            os.close(rd)
            for e, how in (x, y):
                if how.get("obj") == "shared" and "coin" in e: obj(e, how)
            data = json.dumps(pair(x, y, [ka, kb])).encode()
            with os.fdopen(wr, "wb") as f: f.write(data)
        pid = spawn(child); os.close(wr)
        with os.fdopen(rd, "rb") as f: data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data: sys.stderr.write("schedule %s ended with %d\n" % ([first, ka, kb], st)); os._exit(4)
        outs, n = json.loads(data)
        hist += [dict(x[0], out=outs[0], sched=[first, ka, kb]), dict(y[0], out=outs[1], sched=[first, ka, kb])]
        s["points"] = n
    return hist

# ------------------------------------------------------------------------ processes
def freeze():
    """What a seedable generator could be seeded with is the same in every process."""
    random.seed(7)
    t0 = 1700000000.0
    time.time = lambda: t0
    time.time_ns = lambda: int(t0 * 1e9)
    time.monotonic = lambda: 1.0
    time.monotonic_ns = lambda: 10**9
    time.perf_counter = lambda: 1.0
    os.getpid = lambda: 4242
    import uuid; uuid.getnode = lambda: 1

def clamped(text):
    """TLC's integers have 32 bits: what is beyond them is written as the largest (no number in a history means anything up there)."""
    return re.sub(r"(?<=[\[,:])(-?)(\d{10,})(?=[,\]}])", lambda m: m[1] + str(min(int(m[2]), 2**31 - 1)), text)
def worker(k, scripts, path, progress):
    signal.signal(signal.SIGALRM, _alarm)
    with open(path, "w") as f:
        for s in scripts:
            os.pwrite(progress, b"%-20d" % s["id"], 20 * k)
            ev = run_script(s)
            h = {"id": s["id"], "events": ev}
            if "points" in s: h["points"] = s["points"]
            f.write(clamped(json.dumps(h, separators=(",", ":"))) + "\n")
            f.flush()
        os.pwrite(progress, b"%-20d" % -1, 20 * k)

def spawn(fn):
    pid = os.fork()
    if pid == 0:
        code = 0
        try: fn()
        except BaseException:
            import traceback; traceback.print_exc(); code = 3
        sys.stdout.flush(); sys.stderr.flush(); os._exit(code)
    return pid

def clamped(text):
    """TLC's integers have 32 bits: what is beyond them is written as the largest (no number in a history means anything up there)."""
    return re.sub(r"(?<=[\[,:])(-?)(\d{10,})(?=[,\]}])", lambda m: m[1] + str(min(int(m[2]), 2**31 - 1)), text)
def main():
    scripts = [json.loads(l) for l in open(A.scripts)]
    if A.kdf == "standin":
        # does the library derive its keys through what was replaced?
        def probe():
            HITS[0] = 0
            try: BIP38.intermediate_code("x", owner_salt=b"12345678")
            except Exception: pass
            os._exit(0 if HITS[0] else 7)
        _, st = os.waitpid(spawn(probe), 0)
        if os.WEXITSTATUS(st) == 7: sys.exit(7)
    if A.freeze: freeze()
    jobs = max(1, min(A.jobs, len(scripts)))
    fresh = [s for s in scripts if s.get("mode") in ("fresh", "interleave")]
    rest = [s for s in scripts if s.get("mode") not in ("fresh", "interleave")]
    prog = os.open(A.out + ".progress", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    real_time = time.clock_gettime(time.CLOCK_MONOTONIC)
    pids = {}
    for k in range(jobs):
        if rest[k::jobs]: pids[spawn(lambda: worker(k, rest[k::jobs], A.out + ".%d" % k, prog))] = (k, rest[k::jobs])
    # a fresh process for each: this process has made no call yet
    q = list(fresh); live = {}; nf = 0; files = []
    while q or live or pids:
        while q and len(live) < jobs:
            s = q.pop(0); path = A.out + ".f%d" % nf; nf += 1; files.append(path)
            live[spawn(lambda: worker(jobs, [s], path, prog))] = (jobs, [s])
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid:
            which = live if pid in live else pids
            k, ss = which.pop(pid)
            if st != 0:
                sys.stderr.write("worker ended with %d at script %s\n" % (st, os.pread(prog, 20, 20 * k))); sys.exit(4)
        elif time.clock_gettime(time.CLOCK_MONOTONIC) - real_time > A.limit:
            # a call that cannot even be interrupted
            with open(A.out + ".h", "w") as f:
                for p, (k, ss) in list(pids.items()) + list(live.items()):
                    os.kill(p, 9); os.waitpid(p, 0)
                    i = int(os.pread(prog, 20, 20 * k) or b"-1")
                    bad = [s for s in ss if s["id"] == i]
                    for s in bad:
                        ev = next((dict(e) for e in s["events"] if not isinstance(e.get("text"), dict)), None)
                        if ev is not None:
                            ev.pop("how", None); ev["out"] = dict(BAD_OUT); f.write(json.dumps({"id": i, "events": [ev]}) + "\n")
            files.append(A.out + ".h"); break
        else: time.sleep(0.005)
    with open(A.out, "w") as out:
        for p in [A.out + ".%d" % k for k in range(jobs)] + files:
            if os.path.exists(p):
                for l in open(p): out.write(l)
                os.unlink(p)
    os.close(prog); os.unlink(A.out + ".progress")
main()
