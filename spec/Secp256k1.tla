----------------------------- MODULE Secp256k1 -----------------------------
(* The group of y^2 = x^3 + 7 over GF(p), p = 2^256 - 2^32 - 977.  Field        *)
(* elements and scalars are 32 octets, big-endian; a point is x \o y (64        *)
(* octets) and the neutral element <<>>.  Pure TLA+: 256-bit numbers are octet   *)
(* strings, every intermediate value fits TLC's 32-bit integers.                *)
EXTENDS Integers, Sequences, Octets
LOCAL INSTANCE TLC

FieldP == Rep(255, 27) \o <<254, 255, 255, 252, 47>>
OrderN == Rep(255, 15) \o <<254, 186,174,220,230,175,72,160,59,191,210,94,140,208,54,65,65>>
GenG == << 121,190,102,126,249,220,187,172,85,160,98,149,206,135,11,7,2,155,252,219,45,206,40,217,89,242,129,91,22,248,23,152,
           72,58,218,119,38,163,196,101,93,164,251,252,14,17,8,168,253,23,180,72,166,133,84,25,156,71,208,143,251,16,212,184 >>

(* Signed column sums, most significant first, to octets of the same width       *)
(* (the value must be in range; carries run from the right).                     *)
LOCAL Norm(c) ==                     \* may be one digit longer: the overflow
  LET r == Iter(LAMBDA a, i : LET t == c[Len(c) + 1 - i] + a[1]
                              IN  <<t \div 256, <<t % 256>> \o a[2]>>, <<0, <<>>>>, Len(c))
  IN  IF r[1] = 0 THEN r[2] ELSE <<r[1]>> \o r[2]
LOCAL Pad(s, n) == Zeros(n - Len(s)) \o s
LOCAL Sub(a, b) == Norm(TLCEval([i \in 1..Len(a) |-> a[i] - b[i]]))     \* a >= b
LOCAL Add(a, b) == Norm(TLCEval([i \in 1..Len(a) |-> a[i] + b[i]]))
LOCAL SumRange(a, b, k, lo, hi) == Iter(LAMBDA t, i : t + a[lo + i - 1] * b[k + 2 - lo - i], 0, hi + 1 - lo)
LOCAL Max(x, y) == IF x > y THEN x ELSE y
LOCAL MulCols(a, b) ==                             \* a * b, 32 x 32 digits to 64
  Pad(Norm(TLCEval([k \in 1..63 |-> SumRange(a, b, k, Max(1, k - 31), Least(32, k))])), 64)
LOCAL MulWide(a, b) == With(<<a, b>>, LAMBDA p : MulCols(p[1], p[2]))

RECURSIVE SubWhile(_, _)
LOCAL SubWhile(r, m) == IF LtS(r, m) THEN r ELSE SubWhile(Pad(Sub(r, m), Len(m)), m)
(* Field reduction: 2^256 = 2^32 + 977 (mod p), so a 64-digit number h, l folds   *)
(* to h * (2^32 + 977) + l, computed in 40 columns; three folds leave 32 digits.    *)
LOCAL FoldCols(w) ==
  LET d(i) == IF i >= 1 /\ i <= 32 THEN w[i] ELSE 0
      col(i) == (IF i >= 9 THEN 977 * d(i - 8) + w[32 + i - 8] ELSE 0) + d(i - 4)
  IN  Pad(Norm(TLCEval([i \in 1..40 |-> col(i)])), 64)
LOCAL FieldReduce(w) ==
  With(Drop(Iter(LAMBDA x, i : FoldCols(x), w, 3), 32),
       LAMBDA lo : IF LtS(lo, FieldP) THEN lo ELSE Pad(Sub(lo, FieldP), 32))
FMul(a, b) == FieldReduce(MulWide(a, b))
FAdd(a, b) == FieldReduce(Pad(Add(a, b), 64))
FSub(a, b) == With(<<a, b>>, LAMBDA p : IF LtS(p[1], p[2]) THEN Pad(Sub(Pad(Add(p[1], FieldP), 33), <<0>> \o p[2]), 33)
                                        ELSE Pad(Sub(p[1], p[2]), 32))
LOCAL F32(x) == IF Len(x) = 33 THEN Tail(x) ELSE x
FieldMul(a, b) == FMul(a, b)
FieldAdd(a, b) == FAdd(a, b)
FieldSub(a, b) == F32(FSub(a, b))
LOCAL BitsOf(s) == Flat(TLCEval([i \in 1..Len(s) |-> [j \in 1..8 |-> (s[i] \div Pow2(8 - j)) % 2]]))
FieldPow(a, e) == Fold(LAMBDA acc, b : IF b = 1 THEN FMul(FMul(acc, acc), a) ELSE FMul(acc, acc), Zeros(31) \o <<1>>, BitsOf(e))
LOCAL PMinus2 == Rep(255, 27) \o <<254, 255, 255, 252, 45>>
LOCAL PPlus1Over4 == <<63>> \o Rep(255, 26) \o <<255, 191, 255, 255, 12>>
FieldInv(a) == FieldPow(a, PMinus2)

(* Arithmetic modulo the group order.                                             *)
ScalarMulN(a, b) ==
  Tail(Fold(LAMBDA r, d : SubWhile(TLCEval(Tail(r) \o <<d>>), <<0>> \o OrderN), Zeros(33), MulWide(a, b)))
\* the remainder of any octets by the group order
Residue(k) == IF Len(k) = 32 THEN k ELSE Tail(Fold(LAMBDA r, d : SubWhile(TLCEval(Tail(r) \o <<d>>), <<0>> \o OrderN), Zeros(33), k))
IsScalarN(k) == Len(k) = 32 /\ ~IsZeroS(k) /\ LtS(k, OrderN)

LOCAL Root(c) == FieldPow(c, PPlus1Over4)
LOCAL BelowP(a) == LtS(a, FieldP)
LOCAL NegP(a) == FieldSub(FieldP, a)
LOCAL EC == INSTANCE Curve WITH Width <- 32, InField <- BelowP, FMul <- FMul, FAdd <- FAdd, FSub <- FieldSub, FInv <- FieldInv,
                                FRoot <- Root, B <- Zeros(31) \o <<7>>, Negated <- NegP
OnCurve(P) == EC!On(P)
Lift(x, odd) == EC!LiftX(x, odd)
PointAdd(P, Q) == EC!Plus(P, Q)
PointMul(P, k) == EC!Times(P, k)
Compressed(P) == EC!Short(P)
Uncompressed(P) == EC!Long(P)
PointOf(o) == EC!Read(o)
=============================================================================
