------------------------------- MODULE Octets -------------------------------
(* Octet strings (sequences of 0..255) and 32-bit words as pairs of 16-bit   *)
(* limbs <<hi, lo>>: TLC integers are 32-bit signed, so no word is ever one   *)
(* integer.  Everything below is plain TLA+.                                  *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt

(* Loops: op applied for i = 1..n (FoldLeft evaluates each step eagerly).       *)
Iter(op(_, _), base, n) == FoldLeft(op, base, [i \in 1..n |-> i])
Fold(op(_, _), base, s) == FoldLeft(op, base, s)
(* op applied to the value of x (TLC passes arguments unevaluated otherwise).     *)
With(x, op(_)) == FoldLeft(LAMBDA a, y : op(y), <<>>, <<x>>)

Least(a, b) == IF a < b THEN a ELSE b

Take(s, n)     == SubSeq(s, 1, Least(n, Len(s)))
Drop(s, n)     == SubSeq(s, n + 1, Len(s))
Slice(s, o, n) == SubSeq(s, o + 1, Least(o + n, Len(s)))   \* n octets from offset o
Zeros(n)       == TLCEval([i \in 1..n |-> 0])
Rep(x, n)      == TLCEval([i \in 1..n |-> x])
Reversed(s)    == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
XorS(a, b)     == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
StartsWith(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p

(* Big-endian numbers as octet strings of equal length: a < b.                *)
LtS(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
IsZeroS(a) == \A i \in 1..Len(a) : a[i] = 0

(* Small integers, big-endian, fixed width, and minimal width (0 is <<0>>).   *)
RECURSIVE BE(_, _)
BE(n, w) == IF w = 0 THEN <<>> ELSE BE(n \div 256, w - 1) \o <<n % 256>>
RECURSIVE MinBE(_)
MinBE(n) == IF n < 256 THEN <<n>> ELSE MinBE(n \div 256) \o <<n % 256>>
RECURSIVE IntOf(_)
IntOf(s) == IF s = <<>> THEN 0 ELSE IntOf(Take(s, Len(s) - 1)) * 256 + s[Len(s)]

(* Leading zeros stripped: the minimal big-endian form, <<>> for zero.        *)
LeadCount(s, x) == IF \A i \in 1..Len(s) : s[i] = x THEN Len(s)
                   ELSE (CHOOSE i \in 1..Len(s) : s[i] # x /\ \A j \in 1..(i-1) : s[j] = x) - 1
Stripped(s) == Drop(s, LeadCount(s, 0))

(****************************** 32-bit words *******************************)
P2 == <<2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
Pow2(k) == IF k = 0 THEN 1 ELSE P2[k]
W(h, l) == <<h, l>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
WNot(a)    == <<65535 - a[1], 65535 - a[2]>>
WAdd(a, b) == LET lo == a[2] + b[2]
                  hi == a[1] + b[1] + (lo \div 65536)
              IN  <<hi % 65536, lo % 65536>>
WSum(s) == Fold(WAdd, <<0, 0>>, s)
WRotL(a, k) ==
  LET b == IF k >= 16 THEN <<a[2], a[1]>> ELSE a
      m == k % 16
  IN  IF m = 0 THEN b
      ELSE << ((b[1] * Pow2(m)) % 65536) + (b[2] \div Pow2(16 - m)),
              ((b[2] * Pow2(m)) % 65536) + (b[1] \div Pow2(16 - m)) >>
WRotR(a, k) == WRotL(a, 32 - k)
WShR(a, k) ==
  IF k >= 16 THEN <<0, a[1] \div Pow2(k - 16)>>
  ELSE << a[1] \div Pow2(k), (a[2] \div Pow2(k)) + ((a[1] * Pow2(16 - k)) % 65536) >>
WBE(o) == << o[1] * 256 + o[2], o[3] * 256 + o[4] >>      \* 4 octets, big-endian
WLE(o) == << o[4] * 256 + o[3], o[2] * 256 + o[1] >>      \* 4 octets, little-endian
OBE(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256 >>
OLE(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>
Flat(ss) == Fold(LAMBDA a, x : a \o x, <<>>, ss)

(* Message length in bits as 8 octets (length in octets below 2^28).          *)
BitLenBE(n) == <<0,0,0,0>> \o BE(n * 8, 4)
BitLenLE(n) == Reversed(BitLenBE(n))

(* Merkle-Damgard padding to blocks of 64 octets with a given length field.      *)
MdPad(m, field) == m \o <<128>> \o Zeros((119 - Len(m)) % 64) \o field

(*************************** text of octets ********************************)
(* Characters are code points.  Codes/StrOf/Unhex convert TLC strings; they   *)
(* are only used at the boundary where traces are read and verdicts written.  *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOfChar(ch) == 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch
Codes(str) == TLCEval([i \in 1..Len(str) |-> CodeOfChar(SubSeq(str, i, i))])
StrOf(cs) == Fold(LAMBDA a, c : a \o SubSeq(Ascii, c - 31, c - 31), "", cs)
HexDigits == <<48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102>>
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexCodes(o) == TLCEval([i \in 1..(2 * Len(o)) |->
                 LET x == o[(i + 1) \div 2] IN HexDigits[1 + (IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]])
UnhexCodes(cs) == TLCEval([i \in 1..(Len(cs) \div 2) |-> HexVal(cs[2*i - 1]) * 16 + HexVal(cs[2*i])])
Unhex(str) == UnhexCodes(Codes(str))
Hex(o) == StrOf(HexCodes(o))
=============================================================================
