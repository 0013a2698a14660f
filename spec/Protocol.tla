------------------------------ MODULE Protocol ------------------------------
(* The operations of BIP38 as functions from octets to octets.                 *)
(* Every primitive and every size is a CONSTANT: the real instance (Real.tla)   *)
(* plugs in SHA-256, scrypt, AES-256 and secp256k1 on 8-bit octets, the toy      *)
(* instance (Toy.tla) small look-alikes over base-4 digits that TLC can           *)
(* enumerate exhaustively.  The definitions are the same for both.               *)
EXTENDS Integers, Sequences, Octets

CONSTANTS
  Half,          \* octets in half a key (16)
  Quart,         \* octets of the visible part of the first encrypted half (8)
  OEnt,          \* octets of owner entropy (8)
  OSalt,         \* octets of owner salt when lot and sequence are used (4)
  ChkLen,        \* octets of checksums and address hashes (4)
  HashLen,       \* octets of a public key hash (20)
  LotMin, LotMax, SeqMax,
  DSha(_),       \* octets -> 2*Half octets: double SHA-256
  Chk(_),        \* octets -> ChkLen octets: checksum
  Hash20(_),     \* octets -> HASH160
  Kdf1(_, _, _), \* passphrase, salt, length: scrypt 16384/8/8
  Kdf2(_, _, _), \* scrypt 1024/1/1
  Enc(_, _), Dec(_, _),        \* one AES block under a 2*Half octet key
  Gen,                         \* the generator
  Mul(_, _),                   \* point times scalar
  ScMul(_, _),                 \* product of scalars modulo the order
  IsScalar(_),                 \* octets are a scalar in 1..N-1
  PtC(_), PtU(_),              \* compressed and uncompressed forms of a point
  PtOf(_),                     \* octets to point, <<>> if they are none
  PassOct(_),                  \* code points of a passphrase to the octets that are hashed
  LotSeqOct(_, _), LotOf(_), SeqOf(_),
  Txt(_, _),                   \* octets, alphabet -> text
  TxtOK(_, _),                 \* all characters are in the alphabet
  UnTxt(_, _),                 \* text, alphabet -> octets
  Alpha                        \* the Base58 alphabet of keys and codes

None == <<-1>>
Ok(v)       == [ok |-> TRUE, err |-> "", why |-> "", v |-> v]
Err(e, why) == [ok |-> FALSE, err |-> e, why |-> why, v |-> None]

ByteIf(b, x, y) == IF b THEN x ELSE y
KeyLen == 2 * Half
PtLen == KeyLen + 1
SeedLen == Half + Quart

(****************************** checked texts *******************************)
CText(o, alpha) == Txt(o \o Chk(o), alpha)
(* st: "chars" | "sum" | "ok"                                                  *)
Parse(text, alpha) ==
  IF ~TxtOK(text, alpha) THEN [st |-> "chars", o |-> <<>>]
  ELSE LET r == UnTxt(text, alpha)
           n == Len(r) - ChkLen
       IN  IF n < 0 THEN [st |-> "sum", o |-> <<>>]
           ELSE IF Chk(Take(r, n)) # Drop(r, n) THEN [st |-> "sum", o |-> <<>>]
           ELSE [st |-> "ok", o |-> Take(r, n)]

(********************************* addresses ********************************)
PubSer(P, comp) == IF comp THEN PtC(P) ELSE PtU(P)
Address(P, comp, aprefix) == CText(aprefix \o Hash20(PubSer(P, comp)), Alpha)
(* why: "" | "chars" | "sum" | "length" | "prefix"                              *)
ParseAddress(text, aprefix, alpha) ==
  LET p == Parse(text, alpha)
      bad(w) == [why |-> w, h |-> <<>>]
  IN  IF p.st # "ok" THEN bad(p.st)
      ELSE IF Len(p.o) # Len(aprefix) + HashLen THEN bad("length")
      ELSE IF ~StartsWith(p.o, aprefix) THEN bad("prefix")
      ELSE [why |-> "", h |-> Drop(p.o, Len(aprefix))]
AddrHash(addr) == Chk(addr)       \* of the address's characters

(************************************ WIF ***********************************)
Wif(k, comp, wprefix) == CText(wprefix \o k \o (IF comp THEN <<1>> ELSE <<>>), Alpha)
(* why: "" | "chars" | "sum" | "prefix" | "length" | "marker" | "scalar"        *)
ParseWif(text, wprefix) ==
  LET p == Parse(text, Alpha)
      b == Drop(p.o, Len(wprefix))
      bad(w) == [why |-> w, k |-> <<>>, comp |-> FALSE]
  IN  IF p.st # "ok" THEN bad(p.st)
      ELSE IF ~StartsWith(p.o, wprefix) THEN bad("prefix")
      ELSE IF Len(b) = KeyLen THEN [why |-> "", k |-> b, comp |-> FALSE]
      ELSE IF Len(b) # KeyLen + 1 THEN bad("length")
      ELSE IF b[KeyLen + 1] # 1 THEN bad("marker")
      ELSE [why |-> "", k |-> Take(b, KeyLen), comp |-> TRUE]

(* The record a decryption reports.  Absent fields are None.                    *)
KeyRecord(k, comp, seed, lot, seq, net) ==
  LET P == Mul(Gen, k)
  IN  [wif |-> Wif(k, comp, net.wif), key |-> k, comp |-> comp, pub |-> PubSer(P, comp), seed |-> seed,
       addr |-> Address(P, comp, net.addr), lot |-> lot, seq |-> seq]

(***************************** plain encryption *****************************)
PlainPrefix == <<1, 66>>
PlainFlag(comp) == IF comp THEN 224 ELSE 192

PlainRecord(k, comp, pass, ah) ==
  LET d == Kdf1(PassOct(pass), ah, 4 * Half)
      e(i) == Enc(Drop(d, KeyLen), XorS(Slice(k, i * Half, Half), Slice(d, i * Half, Half)))
  IN  PlainPrefix \o <<PlainFlag(comp)>> \o ah \o e(0) \o e(1)

Encrypt(net, wif, pass) ==
  LET w == ParseWif(wif, net.wif)
  IN  IF w.why # "" THEN Err("lib", w.why)
      ELSE IF ~IsScalar(w.k) THEN Err("lib", "scalar")
      ELSE Ok(CText(PlainRecord(w.k, w.comp, pass, AddrHash(Address(Mul(Gen, w.k), w.comp, net.addr))), Alpha))

DecryptPlain(net, r, pass) ==
  LET comp == r[3] = PlainFlag(TRUE)
      ah == Slice(r, 3, ChkLen)
      d == Kdf1(PassOct(pass), ah, 4 * Half)
      h(i) == XorS(Dec(Drop(d, KeyLen), Slice(r, 3 + ChkLen + i * Half, Half)), Slice(d, i * Half, Half))
      k == h(0) \o h(1)
  IN  IF ~IsScalar(k) THEN Err("pass", "range")
      ELSE IF AddrHash(Address(Mul(Gen, k), comp, net.addr)) # ah THEN Err("pass", "passphrase")
      ELSE Ok(KeyRecord(k, comp, None, None, None, net))

(************************* EC-multiplied encryption *************************)
Magic(lots) == <<44, 233, 179, 225, 255, 57, 226, IF lots THEN 81 ELSE 83>>
ECPrefix == <<1, 67>>
CfrmPrefix == <<100, 59, 246, 168, 154>>
CompBit == 32
LotBit == 4
ECFlag(comp, lots) == (IF comp THEN CompBit ELSE 0) + (IF lots THEN LotBit ELSE 0)
ECFlags == {ECFlag(c, l) : c, l \in BOOLEAN}
(* Reserved bits of the flag that the library tolerates and BIP38 leaves unused.  *)
ReservedECFlags == {f + x : f \in ECFlags, x \in {8, 16, 24}}
HasLots(flag) == flag \in {ECFlag(TRUE, TRUE), ECFlag(FALSE, TRUE)}
HasComp(flag) == flag \in {ECFlag(TRUE, TRUE), ECFlag(TRUE, FALSE)}

PassFactor(pass, oent, lots) ==
  IF lots THEN DSha(Kdf1(PassOct(pass), Take(oent, OSalt), KeyLen) \o oent)
  ELSE Kdf1(PassOct(pass), oent, KeyLen)

IsNone(x) == x[1] = -1      \* of a one-element sequence: None or <<number>>
(* lot, seq: None or <<n>>; salt: octets or None (drawn by the library).          *)
CodeParamsOK(lot, seq, salt) ==
  /\ IsNone(lot) = IsNone(seq)
  /\ ~IsNone(lot) => lot[1] >= LotMin /\ lot[1] <= LotMax /\ seq[1] >= 0 /\ seq[1] <= SeqMax
  /\ Len(salt) = OEnt \/ (~IsNone(lot) /\ Len(salt) = OSalt)

OwnerEntropy(lot, seq, salt) == IF IsNone(lot) THEN salt ELSE Take(salt, OSalt) \o LotSeqOct(lot[1], seq[1])
CodeText(oent, lots, pp) == CText(Magic(lots) \o oent \o pp, Alpha)
IntermediateCode(pass, lot, seq, salt) ==
  IF ~CodeParamsOK(lot, seq, salt) THEN Err("lib", "params")
  ELSE LET oent == OwnerEntropy(lot, seq, salt)
           f == PassFactor(pass, oent, ~IsNone(lot))
       IN  IF ~IsScalar(f) THEN Err("lib", "range")
           ELSE Ok(CodeText(oent, ~IsNone(lot), PtC(Mul(Gen, f))))

ParseCode(text) ==
  LET p == Parse(text, Alpha)
      bad(w) == [why |-> w, lots |-> FALSE, oent |-> <<>>, pp |-> <<>>, P |-> <<>>]
      m == Take(p.o, 8)
      pp == Drop(p.o, 8 + OEnt)
  IN  IF p.st # "ok" THEN bad(p.st)
      ELSE IF Len(p.o) # 8 + OEnt + PtLen THEN bad("length")
      ELSE IF m # Magic(TRUE) /\ m # Magic(FALSE) THEN bad("prefix")
      ELSE IF PtOf(pp) = <<>> THEN bad("point")
      ELSE [why |-> "", lots |-> m = Magic(TRUE), oent |-> Slice(p.o, 8, OEnt), pp |-> pp, P |-> PtOf(pp)]

ECRecord(flag, ah, oent, seed, dk) ==
  LET e1 == Enc(Drop(dk, KeyLen), XorS(Take(seed, Half), Take(dk, Half)))
      e2 == Enc(Drop(dk, KeyLen), XorS(Drop(e1, Quart) \o Drop(seed, Half), Slice(dk, Half, Half)))
  IN  ECPrefix \o <<flag>> \o ah \o oent \o Take(e1, Quart) \o e2

MaskSign(sign, dk) == IF dk[Len(dk)] % 2 = 1 THEN (IF sign % 2 = 1 THEN sign - 1 ELSE sign + 1) ELSE sign
CfrmRecord(flag, ah, oent, pb, dk) ==
  CfrmPrefix \o <<flag>> \o ah \o oent \o <<MaskSign(pb[1], dk)>>
    \o Enc(Drop(dk, KeyLen), XorS(Slice(pb, 1, Half), Take(dk, Half)))
    \o Enc(Drop(dk, KeyLen), XorS(Drop(pb, 1 + Half), Slice(dk, Half, Half)))

Create(net, code, comp, seed) ==
  LET c == ParseCode(code)
      f == DSha(seed)
  IN  IF Len(seed) # SeedLen THEN Err("lib", "params")
      ELSE IF c.why # "" THEN Err("lib", c.why)
      ELSE IF ~IsScalar(f) THEN Err("lib", "range")
      ELSE LET P == Mul(c.P, f)
               flag == ECFlag(comp, c.lots)
               addr == Address(P, comp, net.addr)
               ah == AddrHash(addr)
               dk == Kdf2(c.pp, ah \o c.oent, 4 * Half)
           IN  Ok([enc |-> CText(ECRecord(flag, ah, c.oent, seed, dk), Alpha),
                   cfrm |-> CText(CfrmRecord(flag, ah, c.oent, PtC(Mul(Gen, f)), dk), Alpha),
                   pub |-> PubSer(P, comp), comp |-> comp, seed |-> seed, addr |-> addr])

LotPart(flag, oent) == Drop(oent, OSalt)
DecryptEC(net, r, pass) ==
  LET flag == r[3]
      lots == HasLots(flag)
      comp == HasComp(flag)
      ah == Slice(r, 3, ChkLen)
      oent == Slice(r, 3 + ChkLen, OEnt)
      h1a == Slice(r, 3 + ChkLen + OEnt, Quart)
      h2 == Slice(r, 3 + ChkLen + OEnt + Quart, Half)
      f == PassFactor(pass, oent, lots)
  IN  IF ~IsScalar(f) THEN Err("pass", "range")
      ELSE LET dk == Kdf2(PtC(Mul(Gen, f)), ah \o oent, 4 * Half)
               k2 == Drop(dk, KeyLen)
               x2 == XorS(Dec(k2, h2), Slice(dk, Half, Half))
               x1 == XorS(Dec(k2, h1a \o Take(x2, Half - Quart)), Take(dk, Half))
               seed == x1 \o Drop(x2, Half - Quart)
               fb == DSha(seed)
           IN  IF ~IsScalar(fb) THEN Err("pass", "range")
               ELSE LET k == ScMul(f, fb)
                    IN  IF AddrHash(Address(Mul(Gen, k), comp, net.addr)) # ah THEN Err("pass", "passphrase")
                        ELSE Ok(KeyRecord(k, comp, seed, IF lots THEN <<LotOf(LotPart(flag, oent))>> ELSE None,
                                          IF lots THEN <<SeqOf(LotPart(flag, oent))>> ELSE None, net))

(* kind: "plain" | "ec"; why as above, plus "flag"                               *)
ParseEnc(text) ==
  LET p == Parse(text, Alpha)
      o == p.o
      res(w, kd) == [why |-> w, kind |-> kd, o |-> o]
  IN  IF p.st # "ok" THEN res(p.st, "")
      ELSE IF Take(o, 2) = PlainPrefix
           THEN IF Len(o) # 3 + ChkLen + 2 * Half THEN res("length", "plain")
                ELSE IF o[3] \in {PlainFlag(TRUE), PlainFlag(FALSE)} THEN res("", "plain") ELSE res("flag", "plain")
      ELSE IF Take(o, 2) = ECPrefix
           THEN IF Len(o) # 3 + ChkLen + OEnt + Quart + Half THEN res("length", "ec")
                ELSE IF o[3] \in ECFlags THEN res("", "ec")
                ELSE IF o[3] \in ReservedECFlags THEN res("reserved", "ec") ELSE res("flag", "ec")
      ELSE res("prefix", "")

Decrypt(net, text, pass) ==
  LET p == ParseEnc(text)
  IN  IF p.why # "" THEN Err("lib", p.why)
      ELSE IF p.kind = "plain" THEN DecryptPlain(net, p.o, pass)
      ELSE DecryptEC(net, p.o, pass)

ParseCfrm(text) ==
  LET p == Parse(text, Alpha)
      res(w) == [why |-> w, o |-> p.o]
      n == Len(CfrmPrefix)
  IN  IF p.st # "ok" THEN res(p.st)
      ELSE IF Len(p.o) # n + 1 + ChkLen + OEnt + PtLen THEN res("length")
      ELSE IF Take(p.o, n) # CfrmPrefix THEN res("prefix")
      ELSE IF p.o[n + 1] \in ECFlags THEN res("")
      ELSE IF p.o[n + 1] \in ReservedECFlags THEN res("reserved")
      ELSE res("flag")

Confirm(net, text, pass) ==
  LET c == ParseCfrm(text)
      r == Drop(c.o, Len(CfrmPrefix))
      flag == r[1]
      lots == HasLots(flag)
      comp == HasComp(flag)
      ah == Slice(r, 1, ChkLen)
      oent == Slice(r, 1 + ChkLen, OEnt)
      e == Drop(r, 1 + ChkLen + OEnt)
  IN  IF c.why # "" THEN Err("lib", c.why)
      ELSE LET f == PassFactor(pass, oent, lots)
           IN  IF ~IsScalar(f) THEN Err("pass", "range")
               ELSE LET dk == Kdf2(PtC(Mul(Gen, f)), ah \o oent, 4 * Half)
                        k2 == Drop(dk, KeyLen)
                        pb == <<MaskSign(e[1], dk)>> \o XorS(Dec(k2, Slice(e, 1, Half)), Take(dk, Half))
                                                     \o XorS(Dec(k2, Slice(e, 1 + Half, Half)), Slice(dk, Half, Half))
                        B == PtOf(pb)
                    IN  IF B = <<>> THEN Err("pass", "passphrase")
                        ELSE LET P == Mul(B, f)
                                 addr == Address(P, comp, net.addr)
                             IN  IF AddrHash(addr) # ah THEN Err("pass", "passphrase")
                                 ELSE Ok([pub |-> PubSer(P, comp), comp |-> comp, addr |-> addr,
                                          lot |-> IF lots THEN <<LotOf(LotPart(flag, oent))>> ELSE None,
                                          seq |-> IF lots THEN <<SeqOf(LotPart(flag, oent))>> ELSE None])
=============================================================================
