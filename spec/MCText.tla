-------------------------------- MODULE MCText --------------------------------
(* Base58, checked texts, WIFs and addresses in small: octets are digits 0..3, texts     *)
(* are over three characters (and a fourth that is foreign), keys have two octets.          *)
(* Every octet string and every text up to a length; the definitions are those of              *)
(* Base58.tla and Protocol.tla that also judge the library.                                       *)
EXTENDS Protocol, Base58, TLC
CONSTANTS MaxOctets, MaxText
VARIABLES mode, s

Oct == 0..3
A1 == <<11, 12, 13>>
A2 == <<12, 13, 11>>
Alphas == {A1, A2}
Foreign == 14
MChk(o) == <<(Fold(LAMBDA h, x : (h * 131 + x + 7) % 32749, 5, o) \div 3) % 4>>
MTxt(o, alpha) == Spell(o, 4, alpha)
MUnTxt(t, alpha) == Unspell(t, 4, alpha)
MMain == A1
\* nothing of the following is used by texts
None1(a) == a
None2(a, b) == a
None3(a, b, c) == a
NoGen == <<>>
NoTable == <<>>

Init == mode \in {"octets", "text"} /\ s = <<>>
Next ==
  /\ mode' = mode
  /\ \/ mode = "octets" /\ Len(s) < MaxOctets /\ \E x \in Oct : s' = Append(s, x)
     \/ mode = "text" /\ Len(s) < MaxText /\ \E x \in {11, 12, 13, Foreign} : s' = Append(s, x)
Spec == Init /\ [][Next]_<<mode, s>>

Value(d, base) == Fold(LAMBDA a, x : a * base + x, 0, d)
Prefixes == {<<x>> : x \in Oct} \cup {<<1, 0>>, <<2, 3>>}
Keys == {<<a, b>> : a \in Oct, b \in Oct}
Wifs == TLCEval([p \in Prefixes |-> {Wif(k, c, p) : k \in Keys, c \in BOOLEAN}])
Addrs == TLCEval([p \in Prefixes |-> [a \in Alphas |-> {CText(p \o h, a) : h \in Keys}]])

OctetsHold ==
  \A a \in Alphas :
    /\ MUnTxt(MTxt(s, a), a) = s
    /\ InAlphabet(MTxt(s, a), a)
    /\ LeadCount(MTxt(s, a), a[1]) = LeadCount(s, 0)
    /\ Value([i \in 1..Len(MTxt(s, a)) |-> DigitOf(MTxt(s, a)[i], a)], 3) = Value(s, 4)
    /\ Parse(CText(s, a), a) = [st |-> "ok", o |-> s]
TextHolds ==
  /\ \A a \in Alphas :
       IF \E i \in 1..Len(s) : s[i] = Foreign THEN Parse(s, a).st = "chars"
       ELSE /\ MTxt(MUnTxt(s, a), a) = s
            /\ LET p == Parse(s, a) IN (p.st = "ok" <=> Len(MUnTxt(s, a)) >= 1 /\ MChk(Take(MUnTxt(s, a), Len(MUnTxt(s, a)) - 1)) = Drop(MUnTxt(s, a), Len(MUnTxt(s, a)) - 1))
                                       /\ (p.st = "ok" => CText(p.o, a) = s)
  /\ \A p \in Prefixes :
       /\ LET w == ParseWif(s, p) IN (w.why = "" <=> s \in Wifs[p]) /\ (w.why = "" => Wif(w.k, w.comp, p) = s)
       /\ \A a \in Alphas : LET d == ParseAddress(s, p, a) IN (d.why = "" <=> s \in Addrs[p][a]) /\ (d.why = "" => CText(p \o d.h, a) = s)
\* of one-octet prefixes only the right one reads a text
OnePrefix == \A p, q \in {<<x>> : x \in Oct} : p # q => Wifs[p] \cap Wifs[q] = {} /\ \A a \in Alphas : Addrs[p][a] \cap Addrs[q][a] = {}
BackHolds == \A p \in Prefixes, k \in Keys, c \in BOOLEAN : ParseWif(Wif(k, c, p), p) = [why |-> "", k |-> k, comp |-> c]
Holds == (mode = "octets" => OctetsHold) /\ (mode = "text" => TextHolds) /\ (s = <<>> => OnePrefix /\ BackHolds)
=============================================================================
