------------------------------- MODULE Scrypt -------------------------------
(* RFC 7914 scrypt, and the keyed pseudo-random function that replaces it when *)
(* the library runs with its third-party KDF stubbed (see DESIGN.md).          *)
EXTENDS Naturals, Sequences, Octets, Sha256
LOCAL INSTANCE TLC

LOCAL Q(x, q) == [x EXCEPT ![q[1]] = WXor(@, WRotL(WAdd(x[q[2]], x[q[3]]), q[4]))]
LOCAL Quarter(a, b, c, d) == << <<b, a, d, 7>>, <<c, b, a, 9>>, <<d, c, b, 13>>, <<a, d, c, 18>> >>
LOCAL DoubleRound == Flat(<< Quarter(1,5,9,13), Quarter(6,10,14,2), Quarter(11,15,3,7), Quarter(16,4,8,12),
                             Quarter(1,2,3,4), Quarter(6,7,8,5), Quarter(11,12,9,10), Quarter(16,13,14,15) >>)
LOCAL Double(x) == Fold(Q, x, DoubleRound)
(* Blocks are sequences of 16 little-endian words.                             *)
LOCAL AddW(x, y) == TLCEval([i \in 1..16 |-> WAdd(x[i], y[i])])
LOCAL Salsa(x) == AddW(x, Iter(LAMBDA y, i : Double(y), x, 4))
LOCAL XorW(a, b) == TLCEval([i \in 1..Len(a) |-> WXor(a[i], b[i])])
LOCAL MixStep(acc, y) == <<y, Append(acc[2], y)>>
LOCAL Riffle(y) == TLCEval([i \in 1..Len(y) |-> IF i <= Len(y) \div 2 THEN y[2 * i - 1] ELSE y[2 * (i - (Len(y) \div 2))]])
LOCAL BlockMix(bs) ==                       \* bs: 2r blocks
  Riffle(Fold(LAMBDA acc, b : MixStep(acc, Salsa(XorW(acc[1], b))), <<bs[Len(bs)], <<>>>>, bs)[2])
LOCAL Integerify(x, N) == (x[Len(x)][1][2] + (x[Len(x)][1][1] % 16) * 65536) % N       \* N <= 2^20
LOCAL XorB(x, y) == TLCEval([i \in 1..Len(x) |-> XorW(x[i], y[i])])
LOCAL FillV(x, N) == Iter(LAMBDA a, i : <<BlockMix(a[1]), Append(a[2], a[1])>>, <<x, <<>>>>, N)
LOCAL MixV(f, N) == Iter(LAMBDA x, i : BlockMix(XorB(x, f[2][Integerify(x, N) + 1])), f[1], N)
LOCAL Blocks16(b, r) == TLCEval([i \in 1..(2 * r) |-> [j \in 1..16 |-> WLE(Slice(b, 64 * (i - 1) + 4 * (j - 1), 4))]])
LOCAL OctetsOf16(y) == Fold(LAMBDA a, blk : a \o Fold(LAMBDA c, w : c \o OLE(w), <<>>, blk), <<>>, y)
LOCAL ROMix(b, r, N) == OctetsOf16(MixV(TLCEval(FillV(Blocks16(b, r), N)), N))
LOCAL Lanes(b, r, N, p) == Iter(LAMBDA a, i : a \o ROMix(Slice(b, 128 * r * (i - 1), 128 * r), r, N), <<>>, p)
SCRYPT(pass, salt, N, r, p, len) ==
  PBKDF1(pass, Lanes(TLCEval(PBKDF1(pass, salt, p * 128 * r)), r, N, p), len)

(* The stand-in: one PRF over every argument, so that a change of any of them   *)
(* (passphrase, salt, cost parameters, length) changes the result.              *)
LOCAL Prf(pass, salt, N, r, p, len) ==
  PBKDF1(BE(Len(pass), 4) \o pass \o BE(N, 4) \o BE(r, 4) \o BE(p, 4) \o BE(len, 4), salt, len)
(* Some of its values can be chosen: after "kdf " a passphrase gives octets of     *)
(* the result, two hexadecimal digits each; "--" leaves an octet as it is.  So       *)
(* values that scrypt takes with probability 2^-128 are states of the model, too.      *)
LOCAL Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] OTHER -> 16
STANDIN(pass, salt, N, r, p, len) ==
  LET o == TLCEval(Prf(pass, salt, N, r, p, len))
      at(i) == IF 4 + 2 * i > Len(pass) \/ Digit(pass[3 + 2 * i]) > 15 \/ Digit(pass[4 + 2 * i]) > 15 THEN o[i]
               ELSE 16 * Digit(pass[3 + 2 * i]) + Digit(pass[4 + 2 * i])
  IN  IF StartsWith(pass, <<107, 100, 102, 32>>) THEN TLCEval([i \in 1..len |-> at(i)]) ELSE o
=============================================================================
