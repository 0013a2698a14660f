import sys, os, hashlib, unicodedata
sys.path.insert(0, os.getcwd())
import scrypt
import bip38
from bip38 import BIP38
import bip38.cryptocurrencies as CC
import bip38.exceptions as EX
assert os.path.realpath(bip38.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), bip38.__file__
AL = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
def dsha(b): return hashlib.sha256(hashlib.sha256(b).digest()).digest()
def b58(b):
    n = int.from_bytes(b, "big"); s = ""
    while n: n, r = divmod(n, 58); s = AL[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s
def b58c(b): return b58(b + dsha(b)[:4])
def un58(t):
    n = 0
    for c in t: n = n * 58 + AL.index(c)
    return bytes(len(t) - len(t.lstrip("1"))) + n.to_bytes((n.bit_length() + 7) // 8, "big")
def wif(key, comp, prefix=128): return b58c(bytes([prefix]) + key + (b"\1" if comp else b""))
def want(x, what):
    if not x: print("FAIL: " + what); sys.exit(1)
def refused(f, what, kind=None):
    try: r = f()
    except (kind or EX.Error): return
    except Exception as ex:
        print("FAIL: %s: %s instead of the library's error" % (what, type(ex).__name__)); sys.exit(1)
    print("FAIL: %s: accepted, %r" % (what, r)); sys.exit(1)
def works(f, what):
    try: return f()
    except Exception as ex:
        print("FAIL: %s: %s: %s" % (what, type(ex).__name__, ex)); sys.exit(1)
KEY = bytes.fromhex("cbf4b9f70470856bb4f40f80b87edb90865997ffee6df315ab166d713af433a5")
BTC = lambda net="mainnet": BIP38(cryptocurrency=CC.Bitcoin, network=net)
