-------------------------------- MODULE Real --------------------------------
(* The primitives of the real instance.  KdfMode: "scrypt" or "standin".        *)
EXTENDS Integers, Sequences, Octets, Sha256, Ripemd160, Aes256, Scrypt, Base58, Secp256k1, Nfc
LOCAL INSTANCE TLC
CONSTANT KdfMode

RChk(o) == Take(SHA256d(o), 4)
RHash160(o) == RIPEMD160(SHA256(o))
RKdfS(mode, pass, salt, N, r, p, len) ==
  IF mode = "scrypt" THEN SCRYPT(pass, salt, N, r, p, len) ELSE STANDIN(pass, salt, N, r, p, len)
RKdf1(pass, salt, len) == RKdfS(KdfMode, pass, salt, 16384, 8, 8, len)
RKdf2(pass, salt, len) == RKdfS(KdfMode, pass, salt, 1024, 1, 1, len)
(* lot * 4096 + sequence exceeds 2^31: done in limbs.                             *)
RLotSeq(lot, seq) ==
  LET v == (lot % 16) * 4096 + seq IN BE(lot \div 16, 2) \o BE(v, 2)
RLotOf(o) == ((o[1] * 256 + o[2]) * 16) + (o[3] \div 16)
RSeqOf(o) == (o[3] % 16) * 256 + o[4]
=============================================================================
