--------------------------------- MODULE Conv ---------------------------------
(* Integers, octets and hexadecimal text.  An integer is its octets, big-endian,     *)
(* without leading zeros (zero is <<>>): TLC's own are too small.                        *)
EXTENDS Naturals, Sequences, Octets
LOCAL INSTANCE TLC
Digits(n) == IF Stripped(n) = <<>> THEN <<0>> ELSE Stripped(n)
MinWidth(n) == Len(Digits(n))
Fits(n, w) == MinWidth(n) <= w
IntOctets(n, w, little) == LET b == Zeros(w - MinWidth(n)) \o Digits(n) IN IF little THEN Reversed(b) ELSE b
OctetsInt(d, little) == Stripped(IF little THEN Reversed(d) ELSE d)
(* Signed integers: a sign and a magnitude (zero has no sign); two's complement.        *)
RECURSIVE Incremented(_)
Incremented(o) ==
  IF o = <<>> THEN <<>>
  ELSE IF o[Len(o)] = 255 THEN Append(Incremented(Take(o, Len(o) - 1)), 0) ELSE [o EXCEPT ![Len(o)] = @ + 1]
TwosComplement(o) == Incremented([i \in 1..Len(o) |-> 255 - o[i]])
Tops(m) == m[1] = 128 /\ \A i \in 2..Len(m) : m[i] = 0
SignedFits(neg, n, w) == LET m == Stripped(n) IN w >= 1 /\ (Len(m) < w \/ (Len(m) = w /\ (m[1] < 128 \/ (neg /\ Tops(m)))))
SignedOctets(neg, n, w, little) ==
  LET b == IntOctets(n, w, FALSE)
      c == IF neg THEN TwosComplement(b) ELSE b
  IN  IF little THEN Reversed(c) ELSE c
SignedInt(d, little) ==
  LET b == IF little THEN Reversed(d) ELSE d
      neg == b # <<>> /\ b[1] >= 128
  IN  [neg |-> neg, n |-> Stripped(IF neg THEN TwosComplement(b) ELSE b)]
Surrogate(c) == c >= 55296 /\ c <= 57343
UpperHex(o) == LET h == HexCodes(o) IN TLCEval([i \in 1..Len(h) |-> IF h[i] >= 97 THEN h[i] - 32 ELSE h[i]])
=============================================================================
