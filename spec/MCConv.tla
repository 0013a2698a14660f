-------------------------------- MODULE MCConv --------------------------------
(* Integers, octets, hexadecimal text and the padding of the digests: every string     *)
(* over a few telling octets up to a length, every pair of octets, and every message       *)
(* length up to a few blocks.                                                                 *)
EXTENDS Conv, Sha256, Ripemd160, TLC
CONSTANTS MaxOctets, MaxMessage
VARIABLES mode, d

Telling == {0, 1, 9, 10, 127, 128, 160, 255}
Init == mode \in {"few", "pairs", "pad"} /\ d = <<>>
Next ==
  /\ mode' = mode
  /\ \/ mode = "few" /\ Len(d) < MaxOctets /\ \E x \in Telling : d' = Append(d, x)
     \/ mode = "pairs" /\ Len(d) < 2 /\ \E x \in 0..255 : d' = Append(d, x)
     \/ mode = "pad" /\ Len(d) < MaxMessage /\ d' = Append(d, (Len(d) * 7 + 128) % 256)
Spec == Init /\ [][Next]_<<mode, d>>

Both(P(_)) == P(TRUE) /\ P(FALSE)
\* octets -> integer -> octets, at the width they had; integer -> octets -> integer, at every width that holds it
BackToOctets == Both(LAMBDA l : Len(d) > 0 => IntOctets(OctetsInt(d, l), Len(d), l) = d)
BackToInteger == Both(LAMBDA l : \A w \in MinWidth(d)..(MinWidth(d) + 3) : OctetsInt(IntOctets(d, w, l), l) = Stripped(d) /\ Len(IntOctets(d, w, l)) = w)
Minimal == Both(LAMBDA l : LET o == IntOctets(d, MinWidth(d), l) IN Len(o) >= 1 /\ (Len(o) > 1 => o[IF l THEN Len(o) ELSE 1] # 0))
Orders == IntOctets(d, Len(d) + 1, TRUE) = Reversed(IntOctets(d, Len(d) + 1, FALSE)) /\ OctetsInt(d, TRUE) = OctetsInt(Reversed(d), FALSE)
Twice == Reversed(Reversed(d)) = d
Small == Len(d) <= 3 => OctetsInt(d, FALSE) = (IF IntOf(d) = 0 THEN <<>> ELSE MinBE(IntOf(d)))
HexBack == UnhexCodes(HexCodes(d)) = d /\ UnhexCodes(UpperHex(d)) = d /\ Len(HexCodes(d)) = 2 * Len(d)
           /\ \A i \in 1..Len(HexCodes(d)) : HexCodes(d)[i] \in (48..57) \cup (97..102) /\ UpperHex(d)[i] \in (48..57) \cup (65..70)
SignedBack == Both(LAMBDA l : Len(d) > 0 => LET s == SignedInt(d, l) IN SignedFits(s.neg, s.n, Len(d)) /\ SignedOctets(s.neg, s.n, Len(d), l) = d)
SignedThere == \A neg \in {TRUE, FALSE} : (neg /\ Stripped(d) = <<>>) \/
  Both(LAMBDA l : \A w \in 0..(Len(d) + 2) : (SignedFits(neg, d, w) <=> w > 0 /\ Len(Stripped(d)) <= w /\ SignedInt(SignedOctets(neg, d, w, l), l) = [neg |-> neg, n |-> Stripped(d)]))
ConvHolds == mode # "pad" => SignedBack /\ SignedThere /\ BackToOctets /\ BackToInteger /\ Minimal /\ Orders /\ Twice /\ Small /\ HexBack

\* a padded message is the fewest whole blocks that hold it, and can be unpadded
Unpadded(m, length(_)) == Take(m, IntOf(Drop(length(Drop(m, Len(m) - 8)), 4)) \div 8)
Id(f) == f
PadHolds == mode = "pad" =>
  /\ \A m \in {ShaPad(d), RmdPad(d)} : Len(m) % 64 = 0 /\ Len(m) >= Len(d) + 9 /\ Len(m) < Len(d) + 9 + 64 /\ m[Len(d) + 1] = 128
                                       /\ \A i \in (Len(d) + 2)..(Len(m) - 8) : m[i] = 0
  /\ Unpadded(ShaPad(d), Id) = d /\ Unpadded(RmdPad(d), Reversed) = d
Holds == ConvHolds /\ PadHolds
=============================================================================
