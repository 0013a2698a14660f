--------------------------------- MODULE Toy ---------------------------------
(* A toy instance of Protocol that TLC can enumerate: octets are digits 0..3,     *)
(* keys four of them, the curve is y^2 = x^3 + 7 over GF(211) (199 points, a        *)
(* prime), hashes are polynomials modulo 32749, the block cipher an affine            *)
(* permutation of two digits, and Base58 is the identity (any number >= 0 is a           *)
(* character).  Nothing here is meant to be secure, only to have the algebra of            *)
(* the real thing: XOR masks, an invertible keyed cipher, a prime-order group.               *)
EXTENDS Integers, Sequences, Octets, TLC

TP == 211
TN == 199
TDig(v, w) == TLCEval([i \in 1..w |-> (v \div (4 ^ (w - i))) % 4])
TVal(d) == Fold(LAMBDA a, x : a * 4 + x, 0, d)
THash(o) == Fold(LAMBDA h, x : (h * 131 + x + 7) % 32749, 5, o)
TChk(o) == <<THash(o)>>
THash20(o) == <<THash(<<1>> \o o) % 64, THash(<<2>> \o o) % 64>>
TDSha(o) == TDig(THash(<<3>> \o o) % (TN + 3), 4)
TKdf(tag, p, s, len) ==
  LET x == <<tag>> \o p \o <<77>> \o s
  IN  IF len = 4 THEN TDig(THash(x) % (TN + 3), 4)
      ELSE TLCEval([i \in 1..len |-> (THash(x \o <<i>>) \div 5) % 4])
TKdf1(p, s, len) == TKdf(16384, p, s, len)
TKdf2(p, s, len) == TKdf(1024, p, s, len)
TEnc(k, b) == TDig((5 * TVal(b) + THash(k)) % 16, 2)
TDec(k, b) == TDig((13 * (TVal(b) + 16 - (THash(k) % 16))) % 16, 2)

(* The group as small integers: point i is i times the generator (0 is neutral).      *)
TInvP == TLCEval([a \in 1..(TP - 1) |-> CHOOSE b \in 1..(TP - 1) : (a * b) % TP = 1])
TAdd(P, Q) ==
  IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
  ELSE IF P[1] = Q[1] /\ P[2] # Q[2] THEN <<>>
  ELSE LET l == IF P = Q THEN (3 * P[1] * P[1] * TInvP[(2 * P[2]) % TP]) % TP
                ELSE (((Q[2] - P[2]) % TP) * TInvP[(Q[1] - P[1]) % TP]) % TP
           x == (l * l - P[1] - Q[1]) % TP
       IN  <<x, (l * (P[1] - x) - P[2]) % TP>>
TMultiples == TLCEval(Iter(LAMBDA s, i : Append(s, TAdd(s[Len(s)], <<3, 33>>)), << <<3, 33>> >>, TN - 2))
TLogOf == TLCEval([P \in {TMultiples[i] : i \in 1..(TN - 1)} |-> CHOOSE i \in 1..(TN - 1) : TMultiples[i] = P])
(* Octets of a point: abscissa and ordinate, four digits each.                          *)
TOct(P) == TDig(P[1], 4) \o TDig(P[2], 4)
TGen == TOct(<<3, 33>>)
TPair(o) == <<TVal(Take(o, 4)), TVal(Drop(o, 4))>>
TMul(o, k) == LET i == (TLogOf[TPair(o)] * TVal(k)) % TN IN IF i = 0 THEN <<>> ELSE TOct(TMultiples[i])
TScMul(a, b) == TDig((TVal(a) * TVal(b)) % TN, 4)
TIsScalar(k) == (\A i \in 1..Len(k) : k[i] \in 0..3) /\ TVal(k) > 0 /\ TVal(k) < TN
TPtC(o) == <<2 + (o[8] % 2)>> \o Take(o, 4)
TPtU(o) == <<4>> \o o
TPtOf(s) ==
  LET x == TVal(Tail(s))
      c == {P \in DOMAIN TLogOf : P[1] = x /\ P[2] % 2 = s[1] - 2}
  IN  IF s[1] \notin {2, 3} \/ c = {} THEN <<>> ELSE TOct(CHOOSE P \in c : TRUE)
(* <<100, 1>> is the decomposed form of <<101>>.                                          *)
TPassOct(cs) == IF cs = <<100, 1>> THEN <<101>> ELSE cs
TLotSeq(lot, seq) == <<4 * lot + seq>>
TLotOf(o) == o[1] \div 4
TSeqOf(o) == o[1] % 4
TTxt(o, alpha) == o
TTxtOK(t, alpha) == \A i \in 1..Len(t) : t[i] >= 0
TUnTxt(t, alpha) == t
THexed(o) == <<88>> \o o
TAlpha == <<0>>
TCoins == ("A" :> [nets |-> ("main" :> [wif |-> <<128>>, addr |-> <<0>>]) @@ ("test" :> [wif |-> <<239>>, addr |-> <<111>>])
                             @@ ("reg" :> [wif |-> <<240>>, addr |-> <<111>>]), alpha |-> <<0>>])
       @@ ("B" :> [nets |-> ("main" :> [wif |-> <<128>>, addr |-> <<29, 37>>]), alpha |-> <<0>>])
=============================================================================
