-------------------------------- MODULE Curve --------------------------------
(* The group of a curve y^2 = x^3 + B over a prime field, and how its points are    *)
(* written as octets (SEC 1).  Field elements are octet strings of one width; the      *)
(* field is a parameter: Secp256k1.tla gives it 256 bits, MCCurve.tla one octet, on       *)
(* which TLC checks every law of the group for all points.                                *)
EXTENDS Integers, Sequences, Octets
LOCAL INSTANCE TLC
CONSTANTS Width,                    \* octets of a field element
          InField(_),               \* octets are below the prime
          FMul(_, _), FAdd(_, _), FSub(_, _), FInv(_),
          FRoot(_),                 \* a square root, of those that have one
          B,                        \* the constant term
          Negated(_)                \* the prime minus a (of a # 0)

X(P) == Take(P, Width)
Y(P) == Drop(P, Width)
Rhs(x) == FAdd(FMul(FMul(x, x), x), B)
On(P) == Len(P) = 2 * Width /\ InField(X(P)) /\ InField(Y(P)) /\ FMul(Y(P), Y(P)) = Rhs(X(P))
Neg(P) == IF P = <<>> \/ IsZeroS(Y(P)) THEN P ELSE X(P) \o Negated(Y(P))

(* The point with abscissa x and the given parity of y, or <<>>.                   *)
LiftX(x, odd) ==
  IF ~InField(x) THEN <<>>
  ELSE With(Rhs(x), LAMBDA c :
         With(FRoot(c), LAMBDA y :
           IF FMul(y, y) # c THEN <<>>
           ELSE x \o (IF y[Width] % 2 = odd THEN y ELSE Negated(y))))

(* The group law on affine points; the neutral element is <<>>.                    *)
LOCAL Triple(s) == FAdd(FAdd(s, s), s)
LOCAL Slope(P, Q) ==
  IF P = Q THEN FMul(With(FMul(X(P), X(P)), Triple), FInv(FAdd(Y(P), Y(P))))
  ELSE FMul(FSub(Y(Q), Y(P)), FInv(FSub(X(Q), X(P))))
LOCAL Third(P, Q, l) ==
  With(FSub(FSub(FMul(l, l), X(P)), X(Q)),
       LAMBDA x : x \o FSub(FMul(l, FSub(X(P), x)), Y(P)))
LOCAL Chord(P, Q) == With(Slope(P, Q), LAMBDA l : Third(P, Q, l))
Plus(P, Q) ==
  IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
  ELSE IF X(P) = X(Q) /\ (P # Q \/ IsZeroS(Y(P))) THEN <<>>
  ELSE Chord(P, Q)
BitsOf(s) == Flat(TLCEval([i \in 1..Len(s) |-> [j \in 1..8 |-> (s[i] \div Pow2(8 - j)) % 2]]))
Times(P, k) ==                                  \* k: any number of octets
  Fold(LAMBDA acc, b : With(Plus(acc, acc), LAMBDA d : IF b = 1 THEN Plus(d, P) ELSE d), <<>>, BitsOf(k))

(* Serialised points.                                                              *)
Short(P) == <<2 + (P[2 * Width] % 2)>> \o X(P)
Long(P)  == <<4>> \o P
(* Octets to point: <<>> if they are not one in compressed or uncompressed form.   *)
Read(o) ==
  IF Len(o) = Width + 1 /\ o[1] \in {2, 3} THEN LiftX(Tail(o), o[1] - 2)
  ELSE IF Len(o) = 2 * Width + 1 /\ o[1] = 4 /\ On(Tail(o)) THEN Tail(o)
  ELSE <<>>
=============================================================================
