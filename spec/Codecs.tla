------------------------------- MODULE Codecs -------------------------------
(* The conversions the library exports next to BIP38: Base58, WIF, P2PKH         *)
(* addresses, curve points and keys, digests, byte/hex/integer conversions, and    *)
(* the two observations that range over many calls (drawn salts and seeds, error     *)
(* texts).  Each event is one call with its outcome; CodecViolated names what it         *)
(* breaks.                                                                                 *)
EXTENDS Session, Real, Conv

CodecOps == {"b58enc", "b58dec", "wifenc", "wifdec", "towif", "wifread", "addrenc", "addrdec", "hash",
             "keypub", "pubread", "ptread", "ptcoord", "ptadd", "ptmul", "i2b", "b2i", "si2b", "sb2i", "rev", "b2s", "s2b", "draws"}
Secp(e) == e.out.st = "err" /\ e.out.secp
Refused(e) == e.out.st = "err"

(*********************************** Base58 **********************************)
B58Clauses(e) ==
  IF e.op = "b58enc" THEN
    V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.t # B58Enc(IF e.chk THEN e.data \o RChk(e.data) ELSE e.data, e.alpha)), "C15:encoding-differs")
  ELSE IF ~InAlphabet(e.text, e.alpha) THEN V(~Refused(e), "C15:foreign-characters-accepted")
  ELSE IF ~e.chk THEN V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.o # B58Dec(e.text, e.alpha)), "C15:decoding-differs")
  ELSE LET p == Parse(e.text, e.alpha)
       IN  IF p.st # "ok" THEN V(~Refused(e), "C15:bad-checksum-accepted")
           ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.o # p.o), "C15:decoding-differs")

(************************************* WIF ************************************)
WType1(e) == e.wtype \in {TWif, TWifC}
WifClauses(e) ==
  CASE e.op = "wifenc" ->
         IF Malformed(e) THEN V(IsOk(e), "C13:text-that-is-no-key-accepted")
         ELSE IF Len(e.key) # 32 THEN V(~LibErr(e), "C13:bad-key-length-accepted")
         ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # [wif |-> Wif(e.key, FALSE, e.prefix), wifc |-> Wif(e.key, TRUE, e.prefix)]), "C13:wif-differs")
    [] e.op = "wifdec" ->
         LET w == ParseWif(e.text, e.prefix)
             o == B58Dec(e.text, Alpha)
         IN  IF w.why # ""
             THEN V(~LibErr(e), IF w.why = "prefix" THEN "C13:foreign-prefix-accepted"
                                ELSE IF w.why \in {"chars", "sum"} THEN "C13:corrupted-wif-accepted" ELSE "C13:nonconforming-wif-accepted")
                  \cup V(w.why \in {"chars", "sum"} /\ ~LibErr(e), "C08:corrupted-text-not-refused")
                  \cup V(w.why \in {"length", "marker"} /\ ~LibErr(e), "C09:nonconforming-text-not-refused")
                  \cup V(w.why = "prefix" /\ ~LibErr(e), "C09:unknown-prefix-not-refused")
             ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # [key |-> w.k, wtype |-> WType(w.comp), chk |-> Drop(o, Len(o) - 4)]), "C13:decoding-differs")
    [] e.op = "towif" ->
         LET n == CoinTable[e.coin].nets[e.net]
         IN  IF Malformed(e) THEN V(IsOk(e), "C13:text-that-is-no-key-accepted")
             ELSE IF Len(e.key) # 32 THEN V(~LibErr(e), "C13:bad-key-length-accepted")
             ELSE IF ~WType1(e) THEN V(~LibErr(e), "C13:unknown-type-accepted") \cup V(~LibErr(e), "C21:unknown-type-not-refused")
             ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.t # Wif(e.key, e.wtype = TWifC, n.wif)), "C13:wif-differs")
                  \cup V(~IsOk(e) \/ (IsOk(e) /\ ParseWif(e.out.v.t, n.wif).why # ""), "C12:wif-prefix-differs")
    [] e.op = "wifread" ->
         LET w == ParseWif(e.text, CoinTable[e.coin].nets[e.net].wif)
             o == B58Dec(e.text, Alpha)
         IN  IF w.why # ""
             THEN V(~LibErr(e), IF w.why = "prefix" THEN "C13:foreign-prefix-accepted"
                                ELSE IF w.why \in {"chars", "sum"} THEN "C13:corrupted-wif-accepted" ELSE "C13:nonconforming-wif-accepted")
                  \cup V(w.why \in {"chars", "sum"} /\ ~LibErr(e), "C08:corrupted-text-not-refused")
                  \cup V(w.why \in {"length", "marker"} /\ ~LibErr(e), "C09:nonconforming-text-not-refused")
                  \cup V(w.why = "prefix" /\ ~LibErr(e), "C11:foreign-wif-not-refused")
             ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # [key |-> Hexed(w.k), wtype |-> WType(w.comp), chk |-> Hexed(Drop(o, Len(o) - 4))]), "C13:decoding-differs")
                  \cup V(~IsOk(e), "C12:documented-prefix-not-consumed")

(********************************** addresses *********************************)
AddrClauses(e) ==
  IF e.op = "addrenc" THEN
    LET P == IF Len(e.pub) = 64 THEN (IF OnCurve(e.pub) THEN e.pub ELSE <<>>) ELSE PointOf(e.pub)
    IN  IF P = <<>> THEN V(~LibErr(e), "C16:non-point-accepted") \cup V(IsOk(e), "C14:address-of-no-key")
        ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.t # CText(e.prefix \o RHash160(PubSer(P, e.ptype = TComp)), e.alpha)), "C14:address-differs")
             \cup V(~IsOk(e), "C12:documented-prefix-not-consumed")
             \cup V(IsOk(e) /\ ~StartsWith(B58Dec(e.out.v.t, e.alpha), e.prefix), "C12:address-prefix-differs")
  ELSE
    LET a == ParseAddress(e.text, e.prefix, e.alpha)
    IN  IF a.why # "" THEN V(~Refused(e), "C14:bad-address-accepted")
        ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.h # Hexed(a.h)), "C14:decoding-differs")
             \cup V(~IsOk(e), "C12:documented-prefix-not-consumed")

(*********************************** digests **********************************)
Digest(fn, m) ==
  CASE fn = "sha256" -> SHA256(m) [] fn = "double_sha256" -> SHA256d(m) [] fn = "get_checksum" -> RChk(m)
    [] fn = "ripemd160" -> RIPEMD160(m) [] fn = "hash160" -> RHash160(m)
HashClauses(e) ==
  LET wrong == ~IsOk(e) \/ (IsOk(e) /\ e.out.v.o # Digest(e.fn, e.data))
  IN  V(wrong, IF e.impl = "bundled" THEN "C17:bundled-digest-differs" ELSE "C17:digest-differs")
      \cup V(wrong /\ e.form # "bytes", "C22:text-form-differs")

(******************************* points and keys ******************************)
PtView(P) == [x |-> Take(P, 32), y |-> Drop(P, 32), e |-> Compressed(P), d |-> P]
PubView(P) == PtView(P) @@ [c |-> Compressed(P), u |-> Uncompressed(P), rc |-> Compressed(P), ru |-> Uncompressed(P), fp |-> Compressed(P)]
KeyView(k) == LET P == PointMul(GenG, k)
              IN  PubView(P) @@ [raw |-> k, gen |-> Compressed(P), order |-> OrderN, sizes |-> <<32, 33, 65, 32, 33, 65>>, classes |-> TRUE]
AnyPoint(o) == IF Len(o) = 64 THEN (IF OnCurve(o) THEN o ELSE <<>>) ELSE PointOf(o)
Hybrid(o) == Len(o) = 65 /\ o[1] \in {6, 7}
CurveClauses(e) ==
  CASE e.op = "keypub" ->
         IF ~(Len(e.key) = 32 /\ IsScalarN(e.key)) THEN V(~Secp(e), "C16:non-scalar-accepted")
         ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # KeyView(e.key)), "C16:public-key-differs")
    [] e.op \in {"pubread", "ptread"} ->
         IF Hybrid(e.data) THEN {}
         ELSE LET P == AnyPoint(e.data)
              IN  IF P = <<>> THEN V(~Secp(e), "C16:non-point-accepted")
                  ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # (IF e.op = "pubread" THEN PubView(P) ELSE PtView(P))), "C16:point-reads-back-differently")
    [] e.op = "ptcoord" ->       \* two numbers: their sign and their octets without leading zeros
         LET fits == e.neg = <<FALSE, FALSE>> /\ Len(e.x) <= 32 /\ Len(e.y) <= 32
             P == Zeros(32 - Len(e.x)) \o e.x \o Zeros(32 - Len(e.y)) \o e.y
         IN  IF ~fits \/ ~OnCurve(P) THEN V(~Secp(e), "C16:coordinates-of-no-point-accepted")
             ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # PtView(P)), "C16:point-reads-back-differently")
    [] e.op = "ptadd" ->
         LET R == PointAdd(e.a, e.b)
         IN  IF R = <<>> THEN V(IsOk(e), "C16:sum-is-a-finite-point")
             ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # [ab |-> PtView(R), ba |-> PtView(R), fp |-> Compressed(R)]), "C16:sum-differs")
    [] e.op = "ptmul" ->       \* any number of octets: what counts is the remainder by the group order
         LET R == PointMul(e.a, Residue(e.k))
         IN  IF R = <<>> THEN V(IsOk(e), "C16:product-is-a-finite-point")
             ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # [ab |-> PtView(R), ba |-> PtView(R), fp |-> Compressed(R)]), "C16:product-differs")

(********************************* conversions ********************************)
ConvClauses(e) ==
  CASE e.op = "i2b" ->
         IF e.width # None /\ ~Fits(e.n, e.width[1]) THEN V(~Refused(e), "C22:integer-truncated")
         ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.o # IntOctets(e.n, IF e.width = None THEN MinWidth(e.n) ELSE e.width[1], e.little)), "C22:integer-to-bytes-differs")
    [] e.op = "b2i" -> V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.n # OctetsInt(e.data, e.little)), "C22:bytes-to-integer-differs")
    [] e.op = "rev" -> V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.o # Reversed(e.data)), "C22:reverse-differs")
    [] e.op = "b2s" -> V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.t # HexCodes(e.data)), "C22:bytes-to-hex-differs")
    [] e.op = "si2b" ->          \* a width that does not hold it is refused; without one, what is given must hold it
         IF e.width # None
         THEN IF ~SignedFits(e.neg, e.n, e.width[1]) THEN V(~Refused(e), "C22:integer-truncated")
              ELSE V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.o # SignedOctets(e.neg, e.n, e.width[1], e.little)), "C22:integer-to-bytes-differs")
         ELSE V(IsOk(e) /\ (e.out.v.o = <<>> \/ SignedInt(e.out.v.o, e.little) # [neg |-> e.neg, n |-> Stripped(e.n)]), "C22:integer-to-bytes-differs")
    [] e.op = "sb2i" -> V(~IsOk(e) \/ (IsOk(e) /\ e.out.v # SignedInt(e.data, e.little)), "C22:bytes-to-integer-differs")
    [] e.op = "s2b" /\ e.form = "utf8" /\ (\E i \in 1..Len(e.text) : Surrogate(e.text[i])) -> V(IsOk(e), "C22:text-to-bytes-differs")
    [] e.op = "s2b" -> V(~IsOk(e) \/ (IsOk(e) /\ e.out.v.o # (IF e.form = "utf8" THEN UTF8(e.text) ELSE UnhexCodes(e.text))), "C22:text-to-bytes-differs")

(*************************** drawn salts and seeds ****************************)
(* texts: intermediate codes made without a salt, or the seeds that were reported *)
(* (hex) for keys made without one; kind: "salt", "lotsalt", "seed".                 *)
DrawOf(e, t) ==
  IF e.kind = "seed" THEN UnhexCodes(t)
  ELSE LET c == ParseCode(t) IN IF c.why # "" THEN <<>> ELSE IF e.kind = "lotsalt" THEN Take(c.oent, OSalt) ELSE c.oent
DrawLen(e) == CASE e.kind = "seed" -> SeedLen [] e.kind = "lotsalt" -> OSalt [] e.kind = "salt" -> OEnt
Bit(o, i, b) == (o[i] \div Pow2(b)) % 2
(* What no uniform source does but with a probability below 10^-10: a bit ten standard  *)
(* deviations off; an octet value that never comes up where thirty are due, or three       *)
(* times as often as due.                                                                      *)
Skewed(d, n) ==
  LET m == Len(d)
      ones(i, b) == Cardinality({k \in 1..m : Bit(d[k], i, b) = 1})
      off(i, b) == 2 * ones(i, b) - m
      times == TLCEval([v \in 0..255 |-> Cardinality({x \in (1..m) \X (1..n) : d[x[1]][x[2]] = v})])
  IN  V(\E i \in 1..n, b \in 0..7 : off(i, b) * off(i, b) > 100 * m, "C18:skewed-bit")
      \cup (IF m * n < 30 * 256 THEN {} ELSE
            V(\E v \in 0..255 : times[v] = 0, "C18:octet-never-drawn") \cup V(\E v \in 0..255 : times[v] * 256 > 3 * m * n, "C18:octet-drawn-too-often"))
DrawClauses(e) ==
  LET d == TLCEval([i \in 1..Len(e.texts) |-> DrawOf(e, e.texts[i])])
      n == DrawLen(e)
      \* two of a few thousand 4-octet salts may well be equal
      slack == IF n > 4 THEN 0 ELSE 1 + Len(d) \div 3000
      few == TLCEval([i \in 1..Least(96, Len(d)) |-> d[i]])
  IN  IF \E i \in 1..Len(d) : Len(d[i]) # n THEN {"C18:drawn-size-differs"}
      ELSE V(Cardinality({d[i] : i \in 1..Len(d)}) + slack < Len(d), "C18:drawn-twice")
           \cup (IF Len(d) < 96 THEN {} ELSE
                 V(\E i \in 1..n, b \in 0..7 : Cardinality({Bit(few[k], i, b) : k \in 1..96}) # 2, "C18:constant-bit")
                 \cup V(\E i \in 1..n, j \in 1..n : i < j /\ Cardinality({(few[k][i] + 256 - few[k][j]) % 256 : k \in 1..96}) < 20, "C18:octets-depend-on-each-other")
                 \cup V(\E i \in 1..n : Cardinality({(few[k + 1][i] + 256 - few[k][i]) % 256 : k \in 1..95}) < 20, "C18:draws-depend-on-each-other")
                 \cup Skewed(d, n))

(* drawn: how many octets the call took from the system's generator; none at all    *)
(* says nothing (it may have kept some), but fewer than the value has is too few.       *)
DrewTooFew(e, n) == "drawn" \in DOMAIN e /\ e.drawn[1] > 0 /\ e.drawn[1] < n
FreshClauses(e) ==
  IF "form" \in DOMAIN e /\ Malformed(e) THEN {} ELSE
  IF e.op = "create" /\ e.seed = None /\ NetKnown(e) /\ e.wtype \in {TWif, TWifC} /\ ParseCode(e.text).why = ""
  THEN IF ~IsOk(e) THEN {"C18:creation-without-seed-refused"}
       ELSE LET s == UnhexCodes(e.out.v.seed)
                x == Create(Net(e), e.text, e.wtype = TWifC, s)
            IN  V(Len(s) # SeedLen, "C18:drawn-size-differs") \cup V(DrewTooFew(e, SeedLen), "C18:too-little-randomness") \cup V(~x.ok \/ (x.ok /\ ViewCreate(x.v) # e.out.v), "C18:reported-seed-not-used")
  ELSE IF e.op = "icode" /\ e.salt = None /\ ~LotsBad(e)
  THEN IF ~IsOk(e) THEN {"C18:code-without-salt-refused"}
       ELSE LET c == ParseCode(e.out.v.code)
            IN  V(DrewTooFew(e, IF IsNone(e.lot) THEN OEnt ELSE OSalt), "C18:too-little-randomness")
                \cup V(c.why # "" \/ (c.why = "" /\ e.out.v.code # CodeText(c.oent, c.lots, PtC(Mul(Gen, PassFactor(e.pass, c.oent, c.lots))))),
                  "C18:issued-code-unusable")
  ELSE {}

CodecViolated(e) ==
  IF e.out.st = "hang" THEN {"ALL:does-not-return"}
  ELSE IF e.out.st = "odd" THEN {"ALL:result-has-another-shape"}
  ELSE CASE e.op \in {"b58enc", "b58dec"} -> B58Clauses(e)
         [] e.op \in {"wifenc", "wifdec", "towif", "wifread"} -> WifClauses(e)
         [] e.op \in {"addrenc", "addrdec"} -> AddrClauses(e)
         [] e.op = "hash" -> HashClauses(e)
         [] e.op \in {"keypub", "pubread", "ptread", "ptcoord", "ptadd", "ptmul"} -> CurveClauses(e)
         [] e.op \in {"i2b", "b2i", "si2b", "sb2i", "rev", "b2s", "s2b"} -> ConvClauses(e)
         [] e.op = "draws" -> DrawClauses(e)

(* The same call made twice (C19), for all operations that draw nothing.        *)
SameCall(d, e) == DOMAIN d = DOMAIN e /\ \A f \in DOMAIN e \ {"out", "sched", "drawn"} : d[f] = e[f]
CodecPairs(past, e) ==
  UNION {IF past[k].op # e.op \/ e.op = "draws" THEN {} ELSE V(SameCall(past[k], e) /\ ~SameOut(past[k], e), "C19:outcome-depends-on-history") : k \in 1..Len(past)}

(******************************* error texts (C23) ****************************)
(* Some w consecutive characters of secret s appear in text m.                   *)
Occurs(x, t) == \E j \in 0..(Len(t) - Len(x)) : Slice(t, j, Len(x)) = x
\* w consecutive characters of s are in m, and they are not characters of the public text p
Leaks(m, s, w, p) == w <= Len(s) /\ \E i \in 0..(Len(s) - w) : Occurs(Slice(s, i, w), m) /\ ~Occurs(Slice(s, i, w), p)
UpHex(o) == UpperHex(o)
DecDigits(o) == LET d == Rebase(Stripped(o), 256, 10) IN TLCEval([i \in 1..Len(d) |-> d[i] + 48])
\* the group order, which every message about a scalar may quote (a key just above it shares its digits)
PublicTexts == TLCEval(HexCodes(OrderN) \o <<0>> \o UpHex(OrderN) \o <<0>> \o DecDigits(OrderN) \o <<0>> \o OrderN)
LeaksAny(m, S) == \E x \in S : Leaks(m, x[1], x[2], PublicTexts)
(* Python's repr of bytes.                                                        *)
PyRepr(o) == Flat([i \in 1..Len(o) |->
    CASE o[i] = 9 -> <<92, 116>> [] o[i] = 10 -> <<92, 110>> [] o[i] = 13 -> <<92, 114>> [] o[i] = 92 -> <<92, 92>>
      [] o[i] >= 32 /\ o[i] < 127 /\ o[i] # 92 -> <<o[i]>>
      [] OTHER -> <<92, 120>> \o HexCodes(<<o[i]>>)])
\* Base64 (RFC 4648) without its padding: three octets make four characters, what is left one or two make two or three
B64Char(x) == IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4 ELSE IF x = 62 THEN 43 ELSE 47
Base64(o) == LET n == Len(o)
                 at(i) == IF i <= n THEN o[i] ELSE 0
                 sextet(k) == LET i == 3 * (k \div 4)
                                  b == at(i + 1) * 65536 + at(i + 2) * 256 + at(i + 3)
                              IN  (b \div (64 ^ (3 - (k % 4)))) % 64
             IN  TLCEval([k \in 1..((4 * n + 2) \div 3) |-> B64Char(sextet(k - 1))])
\* octets as numbers in a row, what separates them left out; ASCII letters of one case
Decimal(x) == (IF x >= 100 THEN <<48 + x \div 100>> ELSE <<>>) \o (IF x >= 10 THEN <<48 + ((x \div 10) % 10)>> ELSE <<>>) \o <<48 + (x % 10)>>
Listed(o) == Flat([i \in 1..Len(o) |-> Decimal(o[i])])
Upcased(t) == TLCEval([i \in 1..Len(t) |-> IF t[i] >= 97 /\ t[i] <= 122 THEN t[i] - 32 ELSE t[i]])
Lowcased(t) == TLCEval([i \in 1..Len(t) |-> IF t[i] >= 65 /\ t[i] <= 90 THEN t[i] + 32 ELSE t[i]])
\* a text without what may stand between octets: %73%65, 73:65, \x73\x65, 0x73, [115, 101]
Alnum(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Squeezed(t) == LET Mark(i) == t[i] = 120 /\ i > 1 /\ t[i - 1] \in {48, 92}                 \* the x of 0x and of \x
                   Zero(i) == t[i] = 48 /\ i < Len(t) /\ t[i + 1] = 120
               IN  Flat([i \in 1..Len(t) |-> IF Alnum(t[i]) /\ ~Mark(i) /\ ~Zero(i) THEN <<t[i]>> ELSE <<>>])
OctetSecrets(o) == IF Len(o) < 8 THEN {} ELSE
   {<<HexCodes(o), 10>>, <<UpHex(o), 10>>, <<DecDigits(o), 12>>, <<PyRepr(o), 12>>, <<o, 8>>, <<DecDigits(Reversed(o)), 12>>, <<Base64(o), 10>>,
    <<Listed(o), 14>>, <<B58Enc(o, Alpha), 10>>}
PassSecrets(p) == IF Len(p) < 6 THEN {}
   ELSE {<<p, 6>>, <<NFC(p), 6>>, <<HexCodes(UTF8(p)), 10>>, <<UpHex(UTF8(p)), 10>>, <<Reversed(p), 6>>, <<Upcased(p), 6>>, <<Lowcased(p), 6>>}
        \cup {<<PyRepr(UTF8(p)), 10>>, <<Base64(UTF8(p)), 10>>, <<Listed(UTF8(p)), 14>>, <<B58Enc(UTF8(p), Alpha), 10>>}
TextSecrets(t) == IF Len(t) < 12 THEN {} ELSE {<<t, 8>>, <<Reversed(t), 8>>}
WifSecrets(t) ==                 \* the text, and the key in it if it reads as a WIF at all
  TextSecrets(t) \cup
  (IF ~InAlphabet(t, Alpha) THEN {} ELSE LET o == B58Dec(t, Alpha) IN IF Len(o) < 36 THEN {} ELSE OctetSecrets(Slice(o, 1, 32)))
KeySecrets(k) == OctetSecrets(k) \cup UNION {TextSecrets(Wif(k, c, <<x>>)) : c \in BOOLEAN, x \in {128, 239}}
(* What a correct passphrase unlocks, whatever network it is used on.              *)
Unlocked(prov, e) ==
  LET p == ProvOf(prov, e.text)
  IN  IF p.pass # PassOct(e.pass) THEN {}
      ELSE IF p.kind = "plain" THEN KeySecrets(p.key)
      ELSE IF p.kind = "ec" THEN
        LET t == ParseEnc(e.text)
            f == PassFactor(e.pass, Slice(t.o, 3 + ChkLen, OEnt), HasLots(t.o[3]))
            s == UnhexCodes(p.seedv)
        IN  OctetSecrets(f) \cup OctetSecrets(s) \cup KeySecrets(ScMul(f, DSha(s)))
      ELSE {}
SecretsOf(prov, e) ==
  (IF "pass" \in DOMAIN e THEN PassSecrets(e.pass) ELSE {})
  \cup (IF e.op \in {"encrypt", "wifdec", "wifread"} THEN WifSecrets(e.text) ELSE {})
  \cup (IF "seed" \in DOMAIN e /\ e.seed # None THEN OctetSecrets(e.seed) ELSE {})
  \cup (IF e.op \in {"wifenc", "towif", "keypub"} THEN OctetSecrets(e.key) ELSE {})
  \cup (IF e.op = "decrypt" THEN Unlocked(prov, e) ELSE {})
SecretClauses(prov, e) ==
  V(Refused(e) /\ (LET S == TLCEval(SecretsOf(prov, e)) IN LeaksAny(e.out.msg, S) \/ LeaksAny(Squeezed(e.out.msg), S)), "C23:secret-in-error-text")

(***************************** what an event exercises ************************)
Outc(e) == IF IsOk(e) THEN "ok" ELSE IF PassErr(e) THEN "passphrase-error" ELSE IF NetErr(e) THEN "network-error" ELSE e.out.st
WhyName(w) == IF w = "" THEN "conforming" ELSE w
ClassOf(prov, e) ==
  IF e.op \in CodecOps \/ e.op \in {"forge", "object", "icode", "badcoin", "import"} THEN e.op \o " " \o Outc(e)
  ELSE IF ~NetKnown(e) THEN e.op \o " unknown-network " \o Outc(e)
  ELSE LET p == ProvOf(prov, e.text)
       IN  e.op \o " " \o WhyName(WhyOf(e)) \o " " \o Outc(e) \o
           (IF e.op \in {"decrypt", "confirm"} /\ p.kind # "none"
            THEN " " \o p.kind \o "-by-" \o p.by \o (IF SamePass(p, e) THEN " right-passphrase" ELSE " other-passphrase") ELSE "")
=============================================================================
