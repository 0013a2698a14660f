------------------------------- MODULE Session -------------------------------
(* The state machine around Protocol: owners, printers, thieves and tinkerers   *)
(* make calls; every call returns an outcome.  The state remembers where each    *)
(* text came from (prov) and what was called so far (hist).  Violated gives the   *)
(* set of clauses an event breaks; a clause is named "Cnn:what", Cnn being the     *)
(* property of properties.jsonl it belongs to.                                     *)
(*                                                                                 *)
(* Events are records.  All of them have op and out; texts are sequences of code    *)
(* points, octets sequences of 0..255, an absent value is None = <<-1>>, numbers     *)
(* are one-element sequences:                                                         *)
(*   object  coin obj                              construct for network obj           *)
(*   badcoin class                                 construct with some other class     *)
(*   encrypt coin obj ovr text pass                text is a WIF                        *)
(*   decrypt coin obj ovr text pass detail                                              *)
(*   icode   pass lot seq salt                     salt: octets or None                 *)
(*   create  coin obj ovr text wtype seed          text is an intermediate code         *)
(*   confirm coin obj ovr text pass detail                                              *)
(*   forge   kind ...                              a record made by another             *)
(*                                                 conforming implementation (the spec) *)
(* obj is the network of the object the call is made on, ovr the network argument       *)
(* ("" if omitted).  out: st ("ok" | "err" | "odd" | "hang"), lib, pass, net (is the      *)
(* error a library error, its passphrase error, its network error), v (the values).       *)
EXTENDS Protocol, FiniteSets, TLC

CONSTANTS CoinTable,     \* coin -> [nets: name -> [wif, addr], alpha]
          Hexed(_)       \* how octets are reported (hex text)

TWif == <<119, 105, 102>>
TWifC == TWif \o <<45, 99, 111, 109, 112, 114, 101, 115, 115, 101, 100>>
TComp == <<99, 111, 109, 112, 114, 101, 115, 115, 101, 100>>
TUncomp == <<117, 110>> \o TComp
WType(comp) == IF comp THEN TWifC ELSE TWif
PType(comp) == IF comp THEN TComp ELSE TUncomp
HexOrNone(o) == IF o = None THEN None ELSE Hexed(o)

ViewKey(r) == [wif |-> r.wif, key |-> Hexed(r.key), wtype |-> WType(r.comp), pub |-> Hexed(r.pub),
               ptype |-> PType(r.comp), seed |-> HexOrNone(r.seed), addr |-> r.addr, lot |-> r.lot, seq |-> r.seq]
ViewCreate(r) == [enc |-> r.enc, cfrm |-> r.cfrm, pub |-> Hexed(r.pub), seed |-> Hexed(r.seed),
                  ptype |-> PType(r.comp), addr |-> r.addr]
ViewCfrm(r) == [pub |-> Hexed(r.pub), ptype |-> PType(r.comp), addr |-> r.addr, lot |-> r.lot, seq |-> r.seq]

(***************************** reading an event *****************************)
EffNet(e) == IF e.ovr = "" THEN e.obj ELSE e.ovr
NetKnown(e) == EffNet(e) \in DOMAIN CoinTable[e.coin].nets
Net(e) == CoinTable[e.coin].nets[EffNet(e)]
IsOk(e) == e.out.st = "ok"
LibErr(e) == e.out.st = "err" /\ e.out.lib
PassErr(e) == e.out.st = "err" /\ e.out.pass
NetErr(e) == e.out.st = "err" /\ e.out.net
Netted == {"encrypt", "decrypt", "create", "confirm"}
WithPass == {"encrypt", "decrypt", "icode", "confirm"}

(* What the protocol prescribes for an event, as the outcome's v.                 *)
Prescribed(e) ==
  CASE e.op = "object" -> IF e.obj \in DOMAIN CoinTable[e.coin].nets THEN Ok(None) ELSE Err("net", "network")
    [] e.op \in Netted /\ ~NetKnown(e) -> Err("net", "network")
    [] e.op = "encrypt" -> LET r == Encrypt(Net(e), e.text, e.pass) IN IF r.ok THEN Ok([enc |-> r.v]) ELSE r
    [] e.op = "decrypt" -> LET r == Decrypt(Net(e), e.text, e.pass)
                           IN IF ~r.ok THEN r ELSE Ok(IF e.detail THEN ViewKey(r.v) ELSE [wif |-> r.v.wif])
    [] e.op = "icode" -> LET r == IntermediateCode(e.pass, e.lot, e.seq, e.salt) IN IF r.ok THEN Ok([code |-> r.v]) ELSE r
    [] e.op = "create" -> IF e.wtype \notin {TWif, TWifC} THEN Err("lib", "params")
                          ELSE LET r == Create(Net(e), e.text, e.wtype = TWifC, e.seed) IN IF r.ok THEN Ok(ViewCreate(r.v)) ELSE r
    [] e.op = "confirm" -> LET r == Confirm(Net(e), e.text, e.pass)
                           IN IF ~r.ok THEN r ELSE Ok(IF e.detail THEN ViewCfrm(r.v) ELSE [addr |-> r.v.addr])

(****************************** provenance of texts ***************************)
NoProv == [kind |-> "none", by |-> "", passcs |-> <<>>, pass |-> <<>>, coin |-> "", net |-> "", text |-> <<>>,
           key |-> <<>>, comp |-> FALSE, lot |-> None, seq |-> None, seedv |-> None, pub |-> <<>>, addr |-> <<>>, wif |-> <<>>]
ProvOf(prov, t) == IF t \in DOMAIN prov THEN prov[t] ELSE NoProv

ECProv(by, code, kind, e, comp, v) ==
  [NoProv EXCEPT !.kind = kind, !.by = by, !.passcs = code.passcs, !.pass = code.pass, !.coin = e.coin, !.net = EffNet(e),
                 !.comp = comp, !.lot = code.lot, !.seq = code.seq, !.seedv = v.seed, !.pub = v.pub, !.addr = v.addr]
CodeProv(by, e) == [NoProv EXCEPT !.kind = "code", !.by = by, !.passcs = e.pass, !.pass = PassOct(e.pass), !.lot = e.lot, !.seq = e.seq]

(* What a forged record says: kind "plain" (coin net key comp pass), "code" (pass  *)
(* lot seq salt), "ec" (text comp seed coin net: from a code already known).        *)
Forged(e) ==
  CASE e.kind = "plain" ->
         LET n == CoinTable[e.coin].nets[e.net]
         IN  [enc |-> CText(PlainRecord(e.key, e.comp, e.pass, AddrHash(Address(Mul(Gen, e.key), e.comp, n.addr))), Alpha)]
    [] e.kind = "code" ->
         LET oent == OwnerEntropy(e.lot, e.seq, e.salt)
         IN  [code |-> CodeText(oent, ~IsNone(e.lot), PtC(Mul(Gen, PassFactor(e.pass, oent, ~IsNone(e.lot)))))]
    [] e.kind = "ec" -> ViewCreate(Create(CoinTable[e.coin].nets[e.net], e.text, e.comp, e.seed).v)

(* The entries an event adds to prov: a sequence of <<text, entry>>.                *)
Added(prov, e) ==
  IF e.op = "forge" THEN
    LET f == Forged(e)
    IN  CASE e.kind = "plain" ->
               << <<f.enc, [NoProv EXCEPT !.kind = "plain", !.by = "spec", !.passcs = e.pass, !.pass = PassOct(e.pass), !.coin = e.coin,
                            !.net = e.net, !.key = e.key, !.comp = e.comp, !.wif = Wif(e.key, e.comp, CoinTable[e.coin].nets[e.net].wif)]>> >>
          [] e.kind = "code" -> << <<f.code, CodeProv("spec", e)>> >>
          [] e.kind = "ec" -> LET c == ProvOf(prov, e.text)
                                  x == [coin |-> e.coin, obj |-> e.net, ovr |-> ""]
                              IN  << <<f.enc, ECProv("spec", c, "ec", x, e.comp, f)>>,
                                     <<f.cfrm, ECProv("spec", c, "cfrm", x, e.comp, f)>> >>
  ELSE IF ~IsOk(e) THEN <<>>
  ELSE CASE e.op = "encrypt" ->
              LET w == ParseWif(e.text, Net(e).wif)
              IN  << <<e.out.v.enc, [NoProv EXCEPT !.kind = "plain", !.by = "lib", !.passcs = e.pass, !.pass = PassOct(e.pass),
                       !.coin = e.coin, !.net = EffNet(e), !.key = w.k, !.comp = w.comp, !.wif = e.text]>> >>
         [] e.op = "icode" -> << <<e.out.v.code, CodeProv("lib", e)>> >>
         [] e.op = "create" ->
              LET c == ProvOf(prov, e.text)
              IN  IF c.kind # "code" THEN <<>>
                  ELSE << <<e.out.v.enc, ECProv("lib", c, "ec", e, e.wtype = TWifC, e.out.v)>>,
                          <<e.out.v.cfrm, ECProv("lib", c, "cfrm", e, e.wtype = TWifC, e.out.v)>> >>
         [] OTHER -> <<>>
(* A text that is produced again keeps its first entry.                               *)
ProvNext(prov, e) ==
  Fold(LAMBDA f, x : IF x[1] \in DOMAIN f THEN f ELSE (x[1] :> x[2]) @@ f, prov, Added(prov, e))

(********************************** clauses ***********************************)
V(bad, name) == IF bad THEN {name} ELSE {}

(* A text given to operation op, as the specification classifies it.                  *)
WhyOf(e) ==
  CASE e.op = "encrypt" -> LET w == ParseWif(e.text, Net(e).wif) IN IF w.why = "" /\ ~IsScalar(w.k) THEN "scalar" ELSE w.why
    [] e.op = "decrypt" -> ParseEnc(e.text).why
    [] e.op = "create" -> ParseCode(e.text).why
    [] e.op = "confirm" -> ParseCfrm(e.text).why
TextClauses(e) ==
  LET w == WhyOf(e)
  IN  V(w \in {"chars", "sum"} /\ ~LibErr(e), "C08:corrupted-text-not-refused")
      \cup V(w \in {"length", "flag", "point", "scalar", "marker"} /\ ~LibErr(e), "C09:nonconforming-text-not-refused")
      \cup V(w = "prefix" /\ e.op # "encrypt" /\ ~LibErr(e), "C09:unknown-prefix-not-refused")
      \cup V(w = "prefix" /\ e.op = "encrypt" /\ ~LibErr(e), "C11:foreign-wif-not-refused")

SamePass(p, e) == p.pass = PassOct(e.pass)
SameAddr(p, e) == CoinTable[p.coin].nets[p.net].addr = Net(e).addr
(* Reported values that must be those of provenance p; exact view x of the protocol.   *)
KeyOfWif(e, w) == ParseWif(w, Net(e).wif)
PubOfWif(e, w) == LET k == KeyOfWif(e, w) IN IF k.why # "" \/ ~IsScalar(k.k) THEN <<>> ELSE PubSer(Mul(Gen, k.k), k.comp)

(* A refusal that has to be made with the right passphrase error.                        *)
Refusals(p, e, r) ==
  IF r.ok THEN {}                                  \* the 2^-32 collision
  ELSE IF ~SamePass(p, e)
  THEN V(~PassErr(e), IF IsOk(e) THEN "C07:wrong-passphrase-accepted" ELSE "C07:wrong-passphrase-other-error")
       \cup V(IsOk(e), "C10:different-passphrase-accepted")
       \cup V(e.op = "confirm" /\ IsOk(e), "C05:other-passphrase-confirms")
  ELSE V(~SameAddr(p, e) /\ ~PassErr(e), "C11:other-network-not-refused")

DecryptClauses(prov, e) ==
  LET p == ProvOf(prov, e.text)
      r == Decrypt(Net(e), e.text, e.pass)
      x == Prescribed(e)
      right == p.kind \in {"plain", "ec"} /\ SamePass(p, e) /\ SameAddr(p, e)
      same == right /\ p.coin = e.coin /\ p.net = EffNet(e)
      lib == p.by = "lib"
  IN  TextClauses(e) \cup
      (IF p.kind \notin {"plain", "ec"} THEN {} ELSE
        (IF ~right THEN Refusals(p, e, r) ELSE
          V(p.passcs # e.pass /\ ~IsOk(e), "C10:equivalent-passphrase-refused")
          \cup V(lib /\ ~IsOk(e), "C21:issued-key-not-decryptable")
          \cup V(~IsOk(e), "C12:documented-prefix-not-consumed")
          \cup (IF p.kind = "plain"
                THEN V(lib /\ same /\ ~IsOk(e), "C01:decrypt-refused")
                     \cup V(lib /\ same /\ IsOk(e) /\ e.out.v.wif # p.wif, "C01:decrypt-differs")
                     \cup V(~lib /\ ~(IsOk(e) /\ e.out.v = x.v), "C02:foreign-record-not-decrypted")
                ELSE V(lib /\ ~IsOk(e), "C03:decrypt-refused")
                     \cup V(lib /\ IsOk(e) /\ (KeyOfWif(e, e.out.v.wif).why # "" \/ KeyOfWif(e, e.out.v.wif).comp # p.comp), "C03:wif-type-differs")
                     \cup V(lib /\ IsOk(e) /\ same /\ Hexed(PubOfWif(e, e.out.v.wif)) # p.pub, "C03:public-key-differs")
                     \cup V(lib /\ IsOk(e) /\ e.detail /\ (e.out.v.addr # p.addr \/ e.out.v.pub # p.pub), "C03:address-or-public-key-differs")
                     \cup V(lib /\ IsOk(e) /\ e.detail /\ (e.out.v.addr # p.addr \/ e.out.v.pub # p.pub), "C20:reports-disagree")
                     \cup V(lib /\ IsOk(e) /\ e.detail /\ e.out.v.seed # p.seedv, "C03:seed-differs")
                     \cup V(lib /\ IsOk(e) /\ e.detail /\ (e.out.v.lot # p.lot \/ e.out.v.seq # p.seq), "C06:decrypt-lot-sequence-differs")
                     \cup V(~lib /\ ~(IsOk(e) /\ e.out.v = x.v), "C04:foreign-record-not-decrypted"))))
      \* a crafted record, right passphrase, but the key inside is no key
      \cup V(~r.ok /\ r.why = "range" /\ ~LibErr(e), "C09:key-out-of-range-not-refused")
      \cup V(IsOk(e) /\ ~r.ok /\ r.why \in {"chars", "sum"}, "C08:key-from-corrupted-text")
      \* a record nobody made: no passphrase opens it
      \cup V(p.kind = "none" /\ IsOk(e) /\ ~r.ok /\ r.why = "passphrase", "C07:key-of-another-address")
      \cup V(p.kind = "none" /\ ~r.ok /\ r.why = "passphrase" /\ ~LibErr(e), "C09:unopenable-text-not-refused")

ConfirmClauses(prov, e) ==
  LET p == ProvOf(prov, e.text)
      r == Confirm(Net(e), e.text, e.pass)
      x == Prescribed(e)
      right == p.kind = "cfrm" /\ SamePass(p, e) /\ SameAddr(p, e)
      lib == p.by = "lib"
  IN  TextClauses(e) \cup
      (IF p.kind # "cfrm" THEN {} ELSE
       IF ~right THEN Refusals(p, e, r) ELSE
          V(p.passcs # e.pass /\ ~IsOk(e), "C10:equivalent-passphrase-refused")
          \cup V(lib /\ ~IsOk(e), "C21:issued-code-not-confirmed")
          \cup V(lib /\ ~IsOk(e), "C05:confirm-refused")
          \cup V(~IsOk(e), "C12:documented-prefix-not-consumed")
          \cup V(lib /\ IsOk(e) /\ e.out.v.addr # p.addr, "C05:address-differs")
          \cup V(lib /\ IsOk(e) /\ (e.out.v.addr # p.addr \/ (e.detail /\ e.out.v.pub # p.pub)), "C20:reports-disagree")
          \cup V(lib /\ IsOk(e) /\ e.detail /\ (e.out.v.pub # p.pub \/ e.out.v.ptype # PType(p.comp)), "C05:public-key-differs")
          \cup V(lib /\ IsOk(e) /\ e.detail /\ (e.out.v.lot # p.lot \/ e.out.v.seq # p.seq), "C05:lot-sequence-differs")
          \cup V(lib /\ IsOk(e) /\ e.detail /\ (e.out.v.lot # p.lot \/ e.out.v.seq # p.seq), "C06:confirm-lot-sequence-differs")
          \cup V(~lib /\ ~(IsOk(e) /\ e.out.v = x.v), "C04:foreign-code-not-confirmed"))
      \cup V(~r.ok /\ r.why = "range" /\ ~LibErr(e), "C09:key-out-of-range-not-refused")
      \cup V(p.kind = "none" /\ IsOk(e) /\ ~r.ok /\ r.why = "passphrase", "C07:address-that-does-not-match")
      \cup V(p.kind = "none" /\ IsOk(e) /\ ~r.ok /\ r.why = "passphrase", "C05:code-vouches-for-another-key")
      \cup V(p.kind = "none" /\ ~r.ok /\ r.why = "passphrase" /\ ~LibErr(e), "C09:unopenable-text-not-refused")

EncryptClauses(prov, e) ==
  LET w == WhyOf(e)
      x == Prescribed(e)
  IN  TextClauses(e)
      \cup V(w = "" /\ ~IsOk(e), "C01:encrypt-refused")
      \cup V(w = "" /\ ~IsOk(e), "C12:documented-prefix-not-consumed")
      \cup V(w = "" /\ ~(IsOk(e) /\ e.out.v.enc = x.v.enc), "C02:encrypted-record-differs")
      \cup V(IsOk(e) /\ ParseEnc(e.out.v.enc).why # "", "C21:issued-key-malformed")

LotsBad(e) == IsNone(e.lot) # IsNone(e.seq)
              \/ (~IsNone(e.lot) /\ ~(e.lot[1] >= LotMin /\ e.lot[1] <= LotMax /\ e.seq[1] >= 0 /\ e.seq[1] <= SeqMax))
(* A salt or seed given as text that is not hexadecimal (form "badhex": one digit replaced).  *)
Malformed(e) == "form" \in DOMAIN e /\ e.form = "badhex"
SaltBad(e) == e.salt # None /\ ~(Len(e.salt) = OEnt \/ (~IsNone(e.lot) /\ ~IsNone(e.seq) /\ Len(e.salt) = OSalt))
CodeClauses(prov, e) ==
  LET x == Prescribed(e)
      c == ParseCode(e.out.v.code)
      never == e.salt # None /\ x.why = "range"      \* the pass factor is no scalar (2^-128)
  IN  IF Malformed(e) THEN V(IsOk(e), "C21:salt-not-refused") ELSE
      V(LotsBad(e) /\ ~LibErr(e), "C06:lot-or-sequence-not-refused")
      \cup V(SaltBad(e) /\ ~LibErr(e), "C21:salt-not-refused")
      \cup V(never /\ ~LotsBad(e) /\ ~SaltBad(e) /\ ~LibErr(e), "C21:unusable-code-issued")
      \cup (IF LotsBad(e) \/ SaltBad(e) \/ never THEN {} ELSE
            V(~IsNone(e.lot) /\ ~IsOk(e), "C06:lot-and-sequence-refused")
            \cup V(~IsOk(e), "C03:code-refused") \cup V(~IsOk(e), "C21:usable-parameters-refused")
            \cup V(e.salt # None /\ ~(IsOk(e) /\ e.out.v.code = x.v.code), "C04:intermediate-code-differs")
            \cup V(IsOk(e) /\ c.why # "", "C21:issued-code-malformed")
            \cup V(IsOk(e) /\ c.why = "" /\ c.lots # ~IsNone(e.lot), "C06:lot-and-sequence-ignored")
            \cup V(IsOk(e) /\ c.why = "" /\ ~IsNone(e.lot) /\ c.lots
                     /\ Drop(c.oent, OSalt) # LotSeqOct(e.lot[1], e.seq[1]), "C06:lot-and-sequence-altered"))

CreateClauses(prov, e) ==
  LET w == WhyOf(e)
      x == Prescribed(e)
      badargs == (e.seed # None /\ Len(e.seed) # SeedLen) \/ e.wtype \notin {TWif, TWifC}
      good == w = "" /\ ~badargs /\ ~(e.seed # None /\ x.why = "range")
  IN  IF Malformed(e) THEN V(IsOk(e), "C21:seed-or-type-not-refused") ELSE
      V(badargs /\ ~LibErr(e), "C21:seed-or-type-not-refused")
      \cup (IF badargs THEN {} ELSE TextClauses(e))
      \cup V(good /\ ~IsOk(e), "C03:creation-refused") \cup V(good /\ ~IsOk(e), "C21:usable-parameters-refused")
      \cup V(good /\ e.seed # None /\ ~(IsOk(e) /\ x.ok /\ e.out.v = x.v), "C04:created-record-differs")
      \cup (IF ~IsOk(e) THEN {} ELSE
            V(ParseEnc(e.out.v.enc).why # "" \/ ParseEnc(e.out.v.enc).kind # "ec" \/ ParseCfrm(e.out.v.cfrm).why # "", "C21:issued-code-malformed"))

(* badcoin: an object is asked for with a class that is no cryptocurrency.            *)
BadCoinClauses(e) == V(~LibErr(e), "C21:unsupported-coin-not-refused")
ObjectClauses(e) ==
  V(e.obj \in DOMAIN CoinTable[e.coin].nets /\ ~IsOk(e), "C12:network-refused")
  \cup V(e.obj \notin DOMAIN CoinTable[e.coin].nets /\ ~NetErr(e), "C11:unknown-network-not-refused")
  \cup V(e.obj \notin DOMAIN CoinTable[e.coin].nets /\ ~LibErr(e), "C21:unknown-network-not-refused")

(* Documented prefixes and alphabet of everything that is reported.                    *)
AddrFits(e, a) ==
  LET p == Parse(a, CoinTable[e.coin].alpha)
  IN  p.st = "ok" /\ StartsWith(p.o, Net(e).addr) /\ Len(p.o) = Len(Net(e).addr) + HashLen
AddrFitsBitcoin(e, a) ==
  LET p == Parse(a, Alpha)
  IN  p.st = "ok" /\ StartsWith(p.o, Net(e).addr) /\ Len(p.o) = Len(Net(e).addr) + HashLen
WifFits(e, w) == ParseWif(w, Net(e).wif).why = ""
AddrClause(e, a) ==
  V(~AddrFits(e, a), IF CoinTable[e.coin].alpha # Alpha /\ AddrFitsBitcoin(e, a)
                     THEN "C12:address-not-in-declared-alphabet" ELSE "C12:address-prefix-differs")
PrefixClauses(e) ==
  IF ~IsOk(e) \/ e.op \notin Netted THEN {}
  ELSE V(e.op = "decrypt" /\ ~WifFits(e, e.out.v.wif), "C12:wif-prefix-differs")
       \cup (IF "addr" \in DOMAIN e.out.v THEN AddrClause(e, e.out.v.addr) ELSE {})

(* The fields of one detailed record describe one key (C20).                            *)
PtOfReport(v) == IF v.ptype = TComp \/ v.ptype = TUncomp THEN v.ptype ELSE <<>>
HashOfAddr(a) == LET p == Parse(a, Alpha) IN IF p.st = "ok" THEN Drop(p.o, Len(p.o) - HashLen) ELSE <<>>
CoinAddrHash(e, a) ==
  LET h == HashOfAddr(a)
      p == Parse(a, CoinTable[e.coin].alpha)
  IN  IF h # <<>> THEN h ELSE IF p.st = "ok" THEN Drop(p.o, Len(p.o) - HashLen) ELSE <<>>
SelfClauses(e) ==
  IF ~IsOk(e) \/ Malformed(e) THEN {}
  ELSE IF e.op = "decrypt" /\ e.detail THEN
    LET v == e.out.v
        w == ParseWif(v.wif, Net(e).wif)
        q == Parse(v.wif, Alpha)
        P == IF w.why = "" /\ IsScalar(w.k) THEN Mul(Gen, w.k) ELSE <<>>
        t == ParseEnc(e.text)
        oent == Slice(t.o, 3 + ChkLen, OEnt)
        lots == t.kind = "ec" /\ HasLots(t.o[3])
    IN  V(q.st # "ok", "C20:wif-unreadable")
        \cup (IF P = <<>> THEN {} ELSE
              V(v.key # Hexed(w.k), "C20:private-key-and-wif-disagree")
              \cup V(v.wtype # WType(w.comp), "C20:wif-type-disagrees")
              \cup V(v.ptype # PType(w.comp), "C20:public-key-type-disagrees")
              \cup V(v.pub # Hexed(PubSer(P, w.comp)), "C20:public-key-disagrees")
              \cup V(CoinAddrHash(e, v.addr) # Hash20(PubSer(P, w.comp)), "C20:address-disagrees"))
        \cup (IF t.why # "" THEN {} ELSE
              V(t.kind = "plain" /\ (v.seed # None \/ v.lot # None \/ v.seq # None), "C20:fields-that-do-not-apply")
              \cup V(t.kind = "ec" /\ ~lots /\ (v.lot # None \/ v.seq # None), "C20:fields-that-do-not-apply")
              \cup V(lots /\ (v.lot # <<LotOf(LotPart(t.o[3], oent))>> \/ v.seq # <<SeqOf(LotPart(t.o[3], oent))>>), "C20:lot-sequence-disagree")
              \cup V(t.kind = "ec" /\ v.seed = None, "C20:seed-missing")
              \cup LET x == Prescribed(e)
                   IN  V(t.kind = "ec" /\ x.ok /\ v.key = x.v.key /\ v.seed # x.v.seed, "C20:seed-disagrees"))
  ELSE IF e.op = "confirm" /\ e.detail THEN
    LET v == e.out.v
        c == ParseCfrm(e.text)
        n == Len(CfrmPrefix)
        lots == HasLots(c.o[n + 1])
        oent == Slice(c.o, n + 1 + ChkLen, OEnt)
        h == CoinAddrHash(e, v.addr)
        x == Prescribed(e)
    IN  IF c.why # "" \/ ~x.ok THEN {} ELSE
        V(v.ptype # PType(HasComp(c.o[n + 1])), "C20:public-key-type-disagrees")
        \cup V(v.pub = x.v.pub /\ h # HashOfAddr(x.v.addr), "C20:address-disagrees")
        \cup V(v.pub # x.v.pub /\ h = HashOfAddr(x.v.addr), "C20:public-key-disagrees")
        \cup V(~lots /\ (v.lot # None \/ v.seq # None), "C20:fields-that-do-not-apply")
        \cup V(lots /\ (v.lot # <<LotOf(LotPart(0, oent))>> \/ v.seq # <<SeqOf(LotPart(0, oent))>>), "C20:lot-sequence-disagree")
  ELSE IF e.op = "create" THEN
    LET v == e.out.v
        c == ParseCode(e.text)
        comp == e.wtype = TWifC
        x == Create(Net(e), e.text, comp, e.seed)
    IN  IF c.why # "" \/ e.seed = None \/ ~x.ok THEN {} ELSE
        V(v.ptype # PType(comp), "C20:public-key-type-disagrees")
        \cup V(v.seed # Hexed(e.seed), "C20:seed-disagrees")
        \cup V(v.pub # Hexed(x.v.pub), "C20:public-key-disagrees")
        \cup V(CoinAddrHash(e, v.addr) # Hash20(x.v.pub), "C20:address-disagrees")
  ELSE {}

(* Pairs of events of one history.                                                       *)
Fields == <<"coin", "text", "lot", "seq", "salt", "wtype", "seed", "kind">>
SameArgs(d, e) ==
  /\ d.op = e.op
  /\ \A i \in 1..Len(Fields) : LET f == Fields[i] IN f \in DOMAIN d => d[f] = e[f]
SameForm(d, e) == "form" \in DOMAIN e => d.form = e.form      \* hex text or raw octets
SameNetArg(d, e) == e.op \in Netted => EffNet(d) = EffNet(e)
SameDetail(d, e) == "detail" \in DOMAIN e => d.detail = e.detail
SamePassCs(d, e) == e.op \in WithPass => d.pass = e.pass
EquivPass(d, e) == e.op \in WithPass => PassOct(d.pass) = PassOct(e.pass)
\* The HMAC inside scrypt fills a short key up with zero octets: such passphrases are one key, whatever the caller does.
RECURSIVE NoNulEnd(_)
NoNulEnd(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN NoNulEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
OneKey(d, e) == NoNulEnd(PassOct(d.pass)) = NoNulEnd(PassOct(e.pass))
Explicit(e) == /\ "salt" \in DOMAIN e => e.salt # None
               /\ "seed" \in DOMAIN e => e.seed # None
SameOut(d, e) == d.out.st = e.out.st /\ (IsOk(e) => d.out.v = e.out.v)
                 /\ (e.out.st = "err" => d.out.lib = e.out.lib /\ d.out.pass = e.out.pass /\ d.out.net = e.out.net)
Calls == Netted \cup {"icode", "object"}
PairClauses(d, e) ==
  IF d.op # e.op \/ e.op \notin Calls \/ ~SameArgs(d, e) \/ ~Explicit(e) \/ Malformed(d) # Malformed(e) THEN {}
  ELSE IF e.op = "object" THEN V(d.obj = e.obj /\ ~SameOut(d, e), "C19:outcome-depends-on-history")
  ELSE IF ~SameNetArg(d, e) THEN {}
  ELSE (IF SameDetail(d, e)
        THEN V(SamePassCs(d, e) /\ ~SameForm(d, e) /\ ~SameOut(d, e), "C22:form-changes-result")
             \cup V(SamePassCs(d, e) /\ SameForm(d, e) /\ (e.op \in Netted => d.obj = e.obj) /\ ~SameOut(d, e), "C19:outcome-depends-on-history")
             \cup V(SamePassCs(d, e) /\ e.op \in Netted /\ (d.obj # e.obj \/ d.ovr # e.ovr) /\ ~SameOut(d, e), "C11:override-is-not-exact")
             \cup V(e.op \in WithPass /\ d.pass # e.pass /\ EquivPass(d, e) /\ ~SameOut(d, e), "C10:equivalent-passphrases-differ")
             \cup V(e.op \in {"icode", "encrypt"} /\ ~OneKey(d, e) /\ IsOk(d) /\ IsOk(e) /\ d.out.v = e.out.v, "C10:different-passphrases-alike")
        ELSE LET plain == IF e.detail THEN d ELSE e
                 full == IF e.detail THEN e ELSE d
             IN  IF ~SamePassCs(d, e) THEN {} ELSE
                 V(plain.out.st # full.out.st, "C20:one-refused-one-not")
                 \cup V(IsOk(plain) /\ IsOk(full) /\ e.op = "decrypt" /\ plain.out.v.wif # full.out.v.wif, "C20:plain-and-detail-differ")
                 \cup V(IsOk(plain) /\ IsOk(full) /\ e.op = "confirm" /\ plain.out.v.addr # full.out.v.addr, "C20:plain-and-detail-differ"))

(* Refusals that do not depend on anything but the arguments themselves.                 *)
NetClauses(e) == V(~NetErr(e), "C11:unknown-network-not-refused") \cup V(~LibErr(e), "C21:unknown-network-not-refused")

Violated(prov, hist, e) ==
  (IF e.out.st = "hang" THEN {"ALL:does-not-return"} ELSE {}) \cup
  (IF e.out.st = "odd" THEN {"ALL:result-has-another-shape"} ELSE
   IF e.op = "forge" THEN {}
   ELSE (CASE e.op = "object" -> ObjectClauses(e)
           [] e.op = "badcoin" -> BadCoinClauses(e)
           [] e.op \in Netted /\ ~NetKnown(e) -> NetClauses(e)
           [] e.op = "encrypt" -> EncryptClauses(prov, e)
           [] e.op = "decrypt" -> DecryptClauses(prov, e)
           [] e.op = "icode" -> CodeClauses(prov, e)
           [] e.op = "create" -> CreateClauses(prov, e)
           [] e.op = "confirm" -> ConfirmClauses(prov, e))
        \cup (IF e.op \in Netted /\ NetKnown(e) THEN PrefixClauses(e) \cup SelfClauses(e) ELSE {})
        \cup UNION {PairClauses(hist[i], e) : i \in 1..Len(hist)})
=============================================================================
