#!/usr/bin/env python3
"""Are the finite models vacuous?  Plants a mistake in a copy of the specification and runs a model
that has to object.  mutants.py [NAME...]; not part of any check."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vt, models, concurrent.futures
P, S, T, I = "Protocol.tla", "Session.tla", "Toy.tla", "Ideal.tla"
M = [  # name, file, old, new, model
 ("decrypt-drops-mask", P, "h(i) == XorS(Dec(Drop(d, KeyLen), Slice(r, 3 + ChkLen + i * Half, Half)), Slice(d, i * Half, Half))", "h(i) == Dec(Drop(d, KeyLen), Slice(r, 3 + ChkLen + i * Half, Half))", "plain"),
 ("decrypt-swaps-halves", P, "k == h(0) \\o h(1)", "k == h(1) \\o h(0)", "plain"),
 ("encrypt-ignores-passphrase", P, "LET d == Kdf1(PassOct(pass), ah, 4 * Half)\n      e(i)", "LET d == Kdf1(<<>>, ah, 4 * Half)\n      e(i)", "plain"),
 ("decrypt-any-address", P, 'ELSE IF AddrHash(Address(Mul(Gen, k), comp, net.addr)) # ah THEN Err("pass", "passphrase")\n      ELSE Ok(KeyRecord', 'ELSE IF FALSE THEN Err("pass", "passphrase")\n      ELSE Ok(KeyRecord', "plain"),
 ("range-check-lost", P, "IF ~IsScalar(k) THEN Err(\"lib\", \"range\")\n      ELSE IF AddrHash", "IF FALSE THEN Err(\"lib\", \"range\")\n      ELSE IF AddrHash", "plain+"),
 ("wif-any-prefix", P, 'ELSE IF ~StartsWith(p.o, wprefix) THEN bad("prefix")\n      ELSE IF Len(b) = KeyLen', 'ELSE IF Len(b) = KeyLen', "text"),
 ("wif-any-marker", P, 'ELSE IF b[KeyLen + 1] # 1 THEN bad("marker")', 'ELSE IF FALSE THEN bad("marker")', "text"),
 ("address-prefix-lost", P, 'ELSE IF ~StartsWith(p.o, aprefix) THEN bad("prefix")', 'ELSE IF FALSE THEN bad("prefix")', "text"),
 ("address-any-length", P, 'ELSE IF Len(p.o) # Len(aprefix) + HashLen THEN bad("length")', 'ELSE IF Len(p.o) < Len(aprefix) + HashLen THEN bad("length")', "text"),
 ("checksum-unread", P, 'ELSE IF Chk(Take(r, n)) # Drop(r, n) THEN [st |-> "sum", o |-> <<>>]', 'ELSE IF FALSE THEN [st |-> "sum", o |-> <<>>]', "text"),
 ("checksum-unread-toy", P, 'ELSE IF Chk(Take(r, n)) # Drop(r, n) THEN [st |-> "sum", o |-> <<>>]', 'ELSE IF FALSE THEN [st |-> "sum", o |-> <<>>]', "typos"),
 ("leading-zeros-lost", "Base58.tla", "Rebase(s, from, to) == Zeros(LeadCount(s, 0)) \\o RebaseDigits(s, from, to)", "Rebase(s, from, to) == RebaseDigits(s, from, to)", "text:pure"),
 ("one-leading-zero", "Base58.tla", "Rebase(s, from, to) == Zeros(LeadCount(s, 0)) \\o", "Rebase(s, from, to) == Zeros(Least(1, LeadCount(s, 0))) \\o", "text:pure"),
 ("spill-once", "Base58.tla", "Stripped(Spill(Spill(MulAdd(t, from, d, to), to), to))", "Stripped(MulAdd(t, from, d, to))", "text:pure"),
 ("seed-middle-lost", P, "ECPrefix \\o <<flag>> \\o ah \\o oent \\o Take(e1, Quart) \\o e2", "ECPrefix \\o <<flag>> \\o ah \\o oent \\o Take(e2, Quart) \\o e2", "ec"),
 ("sequence-as-lot", T, "TSeqOf(o) == o[1] % 4", "TSeqOf(o) == o[1] \\div 4", "ec"),
 ("sign-unmasked", P, "<<MaskSign(e[1], dk)>> \\o XorS", "<<e[1]>> \\o XorS", "ec"),
 ("sequence-too-far", P, "seq[1] >= 0 /\\ seq[1] <= SeqMax", "seq[1] >= 0", "ec"),
 ("salt-any-length", P, "/\\ Len(salt) = OEnt \\/ (~IsNone(lot) /\\ Len(salt) = OSalt)", "/\\ TRUE", "ec"),
 ("confirm-any-address", P, 'IN  IF AddrHash(addr) # ah THEN Err("pass", "passphrase")', 'IN  IF FALSE THEN Err("pass", "passphrase")', "ec"),
 ("compression-unread", P, "HasComp(flag) == flag \\in {ECFlag(TRUE, TRUE), ECFlag(TRUE, FALSE)}", "HasComp(flag) == flag = ECFlag(TRUE, FALSE)", "ec"),
 ("flag-any", P, 'IF o[3] \\in {PlainFlag(TRUE), PlainFlag(FALSE)} THEN res("", "plain") ELSE res("flag", "plain")', 'res("", "plain")', "forged"),
 ("network-unread", S, 'LET r == Decrypt(Net(e), e.text, e.pass)\n                           IN', 'LET r == Decrypt(CoinTable[e.coin].nets[e.obj], e.text, e.pass)\n                           IN', "nets"),
 ("ideal-any-passphrase", I, 'IF t[4] # Class(e.pass) THEN Refuse("pass", "passphrase")', 'IF FALSE THEN Refuse("pass", "passphrase")', "ideal"),
 ("ideal-any-network", I, 'ELSE IF t[5] # Net(e).addr THEN Refuse("pass", "network")', 'ELSE IF FALSE THEN Refuse("pass", "network")', "ideal+"),
 ("ideal-confirms-others", I, 'ELSE IF t[2][2] # Class(e.pass) THEN Refuse("pass", "passphrase")\n  ELSE IF t[4] # Net(e).addr', 'ELSE IF t[4] # Net(e).addr', "ideal"),
 ("ideal-seed-forgotten", I, "ECKeyT(code, seed) == <<\"ec\", code[2], code[3], code[4], seed>>", "ECKeyT(code, seed) == <<\"ec\", code[2], code[3], code[4], <<>> >>", "ideal++"),
 ("ideal-one-draw", I, 'SeedOf(e) == IF e.si # 0 THEN log[e.si].out["seed"][2] ELSE IF e.seed = "" THEN <<"drawn", Len(log) + 1>>', 'SeedOf(e) == IF e.si # 0 THEN log[e.si].out["seed"][2] ELSE IF e.seed = "" THEN <<"drawn", 1>>', "ideal++"),
 ("curve-double-as-chord", "Curve.tla", "IF P = Q THEN FMul(With(FMul(X(P), X(P)), Triple), FInv(FAdd(Y(P), Y(P))))", "IF P = Q THEN FMul(FMul(X(P), X(P)), FInv(FAdd(Y(P), Y(P))))", "curve"),
 ("curve-parity", "Curve.tla", "Short(P) == <<2 + (P[2 * Width] % 2)>>", "Short(P) == <<3 - (P[2 * Width] % 2)>>", "curve"),
 ("curve-off-it", "Curve.tla", "On(P) == Len(P) = 2 * Width /\\ InField(X(P)) /\\ InField(Y(P)) /\\", "On(P) == Len(P) = 2 * Width /\\", "curve"),
 ("curve-no-root", "Curve.tla", "IF FMul(y, y) # c THEN <<>>", "IF FALSE THEN <<>>", "curve"),
 ("curve-opposite", "Curve.tla", "ELSE IF X(P) = X(Q) /\\ (P # Q \\/ IsZeroS(Y(P))) THEN <<>>", "ELSE IF X(P) = X(Q) /\\ P # Q THEN Neg(P)", "curve"),
 ("conv-not-minimal", "Conv.tla", "MinWidth(n) == Len(Digits(n))", "MinWidth(n) == Len(Digits(n)) + 1", "conv"),
 ("conv-order", "Conv.tla", "IF little THEN Reversed(b) ELSE b", "b", "conv"),
 ("pad-55", "Octets.tla", "Zeros((119 - Len(m)) % 64)", "Zeros((118 - Len(m)) % 64)", "conv"),
]
def run(m):
    name, f, old, new, model = m
    pure = model.endswith(":pure"); model = model.split(":")[0]
    w = vt.Work("mutant")
    try:
        s = open(w.path(f)).read()
        if s.count(old) != 1: return name, "?", "%d places" % s.count(old)
        open(w.path(f), "w").write(s.replace(old, new))
        mod, cfg = models.QUICK[model]
        lines, ok, gen, full = vt.tlc(w, mod, cfg, timeout=1500, workers=2, pure=pure)
        why = next((l for l in lines if "nvariant" in l or l.startswith("Error")), "")
        return name, not ok and ("violated" in full or "TLC threw an unexpected exception" in full or "Evaluating" in full or "Attempted" in full), why
    except vt.Broken as ex: return name, "?", str(ex)[:200]
    finally: w.close()
if __name__ == "__main__":
    vt.ensure_java()
    ms = [m for m in M if not sys.argv[1:] or m[0] in sys.argv[1:]]; bad = 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for name, found, why in ex.map(run, ms):
            print({True: "found", False: "MISSED", "?": "??"}[found], name, why, flush=True); bad += found in (False, "?")
    sys.exit(bad > 0)
