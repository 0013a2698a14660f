------------------------------- MODULE MCCurve -------------------------------
(* The group of Curve.tla over a field of one octet, y^2 = x^3 + 7 as secp256k1:    *)
(* every law, for all points.  With Prime = 43 the group has 31 elements, with 211      *)
(* it has 199; both are prime orders, as secp256k1's is.                                   *)
EXTENDS Integers, Sequences, Octets, TLC
CONSTANTS Prime, Order, Gx, Gy,
          Thirds          \* associativity is tried with that many third points
VARIABLES p, q

El(n) == <<n % Prime>>
Below(a) == a[1] < Prime
MMul(a, b) == El(a[1] * b[1])
MAdd(a, b) == El(a[1] + b[1])
MSub(a, b) == El(a[1] + Prime - b[1])
MPow(a, e) == Iter(LAMBDA r, i : MMul(r, a), <<1>>, e)
\* a table: the definition is a search
InvT == TLCEval([a \in 1..(Prime - 1) |-> CHOOSE b \in 1..(Prime - 1) : (a * b) % Prime = 1])
MInv(a) == <<InvT[a[1]]>>
RootT == TLCEval([a \in 0..(Prime - 1) |-> MPow(<<a>>, (Prime + 1) \div 4)])
MRoot(a) == RootT[a[1]]
MNeg(a) == <<Prime - a[1]>>
INSTANCE Curve WITH Width <- 1, InField <- Below, FMul <- MMul, FAdd <- MAdd, FSub <- MSub, FInv <- MInv, FRoot <- MRoot, B <- <<7>>, Negated <- MNeg

O == <<>>
G == <<Gx, Gy>>
\* the affine points by their equation alone, and the multiples of the generator by addition alone
Solutions == TLCEval({P \in (0..(Prime - 1)) \X (0..(Prime - 1)) : (P[2] * P[2]) % Prime = (P[1] * P[1] * P[1] + 7) % Prime})
Multiples == TLCEval(Iter(LAMBDA s, i : Append(s, Plus(s[Len(s)], G)), <<G>>, Order - 2))
Group == TLCEval({O} \cup {Multiples[i] : i \in 1..(Order - 1)})
LogT == TLCEval([P \in Group |-> IF P = O THEN 0 ELSE CHOOSE i \in 1..(Order - 1) : Multiples[i] = P])
Nth(i) == IF i % Order = 0 THEN O ELSE Multiples[i % Order]

Init == p \in Group /\ q = O
Next == q = O /\ q' \in Group /\ p' = p
Spec == Init /\ [][Next]_<<p, q>>

\* all points are multiples of the generator, and the generator has this order
Cyclic == Group = {O} \cup Solutions /\ Plus(Multiples[Order - 1], G) = O
Closed == Plus(p, q) \in Group /\ Nth(LogT[p] + LogT[q]) = Plus(p, q)
Commutes == Plus(p, q) = Plus(q, p)
Neutral == Plus(p, O) = p /\ Plus(O, p) = p
Inverse == Plus(p, Neg(p)) = O /\ (p # O => Neg(p) \in Group) /\ Neg(Neg(p)) = p
Associates == \A r \in {Nth(i) : i \in 1..Thirds} : Plus(Plus(p, q), r) = Plus(p, Plus(q, r))
\* multiplication is repeated addition, for all scalars of one octet and some of two
TimesIsRepeated == q = O => \A k \in 0..255 : Times(p, <<k>>) = Nth(LogT[p] * k) /\ Times(p, <<0, k>>) = Times(p, <<k>>) /\ Times(p, <<k, 7>>) = Nth(LogT[p] * (k * 256 + 7))
Distributes == \A k \in {0, 1, 2, 3, Order - 1, Order, Order + 1} : Times(Plus(p, q), <<k>>) = Plus(Times(p, <<k>>), Times(q, <<k>>))
Composes == q = O => \A k \in 0..(Order - 1), l \in {1, 2, 5, Order - 1} : Times(Times(p, <<k>>), <<l>>) = Times(p, <<(k * l) % Order>>)
\* writing and reading
Written == p = O \/ (Read(Short(p)) = p /\ Read(Long(p)) = p /\ Len(Short(p)) = 2 /\ Len(Long(p)) = 3 /\ (p # q /\ q # O => Short(p) # Short(q) /\ Long(p) # Long(q)))
\* nothing else reads as a point: all strings of the two lengths under every marker
OnlyWritten ==
  (p = O /\ q = O) =>
    /\ \A m \in 0..255, x \in 0..255 : LET P == Read(<<m, x>>) IN IF P = O THEN \A R \in Solutions : Short(R) # <<m, x>> ELSE P \in Solutions /\ Short(P) = <<m, x>>
    /\ \A x \in 0..255, y \in 0..255 : LET P == Read(<<4, x, y>>) IN IF P = O THEN <<x, y>> \notin Solutions ELSE P = <<x, y>> /\ P \in Solutions
    /\ \A m \in {0, 2, 3, 5, 6, 7}, x \in 0..255 : Read(<<m, x, x>>) = O
Holds == Cyclic /\ Closed /\ Commutes /\ Neutral /\ Inverse /\ Associates /\ TimesIsRepeated /\ Distributes /\ Composes /\ Written /\ OnlyWritten
=============================================================================
