-------------------------------- MODULE Forge --------------------------------
(* Another implementation of BIP38: the specification itself, run forwards.     *)
(* IOEnv.PLAN holds one request per line; for each, the texts Protocol            *)
(* prescribes are printed, after the request's edits were made to the record        *)
(* (before the checksum is put on it).  This is where foreign records, and            *)
(* correctly checksummed records that are not conforming, come from.                    *)
EXTENDS Codecs, Coins, Json, IOUtils
Requests == ndJsonDeserialize(IOEnv.PLAN)
VARIABLES r, done

Splice(o, i, x) == Take(o, i) \o x \o Drop(o, i + Len(x))
Edit1(o, ed) ==
  CASE ed[1] = "set" -> Splice(o, ed[2], ed[3])
    [] ed[1] = "cut" -> Take(o, Len(o) - ed[2])
    [] ed[1] = "app" -> o \o ed[2]
    [] ed[1] = "ins" -> Take(o, ed[2]) \o ed[3] \o Drop(o, ed[2])
    [] ed[1] = "del" -> Take(o, ed[2]) \o Drop(o, ed[2] + ed[3])
    [] ed[1] = "xor" -> Splice(o, ed[2], XorS(Slice(o, ed[2], Len(ed[3])), ed[3]))
Edited(o, eds) == Fold(Edit1, o, eds)
NetRow(q) == CoinTable[q.coin].nets[q.net]
OEntOf(q) == OwnerEntropy(q.lot, q.seq, q.salt)
CodeOct(q) == LET t == CodeText(OEntOf(q), ~IsNone(q.lot), PtC(Mul(Gen, PassFactor(q.pass, OEntOf(q), ~IsNone(q.lot))))) IN Parse(t, Alpha).o
\* an address hash that is not quite the right one
Near(q, ah) == IF "ahx" \in DOMAIN q THEN XorS(ah, q.ahx) ELSE ah
PlainOct(q) == LET aok == IsScalar(q.key)
                   ah == IF aok THEN Near(q, AddrHash(Address(Mul(Gen, q.key), q.comp, NetRow(q).addr))) ELSE q.ah
               IN  PlainRecord(q.key, q.comp, q.pass, ah)
(* As Create, but with the address hash, or the point of the confirmation code, of   *)
(* the request: records that are sound in every other respect.                          *)
Crooked(q) ==
  LET c == ParseCode(CText(CodeOct(q), Alpha))
      f == DSha(q.seed)
      P == Mul(c.P, f)
      addr == Address(P, q.comp, NetRow(q).addr)
      ah == Near(q, AddrHash(addr))
      dk == Kdf2(c.pp, ah \o c.oent, 4 * Half)
      flag == ECFlag(q.comp, c.lots)
  IN  [enc |-> CText(ECRecord(flag, ah, c.oent, q.seed, dk), Alpha),
       cfrm |-> CText(CfrmRecord(flag, ah, c.oent, IF "pb" \in DOMAIN q THEN q.pb ELSE PtC(Mul(Gen, f)), dk), Alpha)]
Made(q) == IF "ahx" \in DOMAIN q \/ "pb" \in DOMAIN q THEN Crooked(q)
           ELSE Create(NetRow(q), CText(CodeOct(q), Alpha), q.comp, q.seed).v
WifOct(q) == q.prefix \o q.key \o (IF q.comp THEN <<1>> ELSE <<>>)
Out(q) ==
  CASE q.kind = "plain" -> << <<"enc", PlainOct(q)>> >>
    [] q.kind = "code"  -> << <<"code", CodeOct(q)>> >>
    [] q.kind = "ec"    -> LET m == Made(q) IN << <<"code", CodeOct(q)>>, <<"enc", Parse(m.enc, Alpha).o>>, <<"cfrm", Parse(m.cfrm, Alpha).o>> >>
    [] q.kind = "wif"   -> << <<"wif", WifOct(q)>> >>
    [] q.kind = "raw"   -> << <<"raw", q.octets>> >>
    [] q.kind = "nums"  -> \* intermediate values of an EC record, to build special inputs on
         LET f == PassFactor(q.pass, OEntOf(q), ~IsNone(q.lot))
             m == Made(q)
             t == Parse(m.enc, Alpha).o
             dk == Kdf2(PtC(Mul(Gen, f)), Slice(t, 3, ChkLen) \o OEntOf(q), 4 * Half)
         IN  << <<"factor", f>>, <<"dk", dk>> >>
AlphaOf(q) == IF "alpha" \in DOMAIN q THEN q.alpha ELSE Alpha
Raw(q) == q.kind = "nums"
Init == r \in 1..Len(Requests) /\ done = FALSE
Next ==
  /\ ~done /\ done' = TRUE /\ r' = r
  /\ LET q == Requests[r]
         o == Out(q)
     IN  \A k \in 1..Len(o) :
           LET x == IF Raw(q) THEN o[k][2]
                    ELSE CText(IF q.kind = "ec" /\ q.field # o[k][1] THEN o[k][2] ELSE Edited(o[k][2], q.edits), AlphaOf(q))
           IN  PrintT("F " \o ToString(q.id) \o " " \o o[k][1] \o " " \o ToString(x))
Spec == Init /\ [][Next]_<<r, done>>
=============================================================================
