------------------------------- MODULE Base58 -------------------------------
(* Positional re-encoding with leading zeros kept, as Base58 does it: a string *)
(* of digits base `from` becomes a string of digits base `to`, each leading     *)
(* zero digit of one being one leading zero digit of the other.                 *)
EXTENDS Naturals, Sequences, Octets
LOCAL INSTANCE TLC

(* Horner: the number (digits base to, most significant first) times from plus d.  *)
LOCAL MulAdd(t, from, d, to) ==
  LET r == Iter(LAMBDA a, i : LET v == t[Len(t) + 1 - i] * from + a[1]
                              IN  <<v \div to, <<v % to>> \o a[2]>>, <<d, <<>>>>, Len(t))
  IN  <<r[1]>> \o r[2]
LOCAL Spill(t, to) ==              \* the first digit may exceed the base: split it
  IF t[1] < to THEN t ELSE <<t[1] \div to, t[1] % to>> \o Tail(t)
LOCAL RebaseDigits(s, from, to) ==
  Fold(LAMBDA t, d : Stripped(Spill(Spill(MulAdd(t, from, d, to), to), to)), <<>>, s)
Rebase(s, from, to) == Zeros(LeadCount(s, 0)) \o RebaseDigits(s, from, to)

BitcoinAlphabet == Codes("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
RippleAlphabet  == Codes("rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz")

InAlphabet(text, alpha) == \A i \in 1..Len(text) : \E j \in 1..Len(alpha) : alpha[j] = text[i]
DigitOf(c, alpha) == (CHOOSE j \in 1..Len(alpha) : alpha[j] = c) - 1

(* octets -> text; text -> octets, defined only on texts over the alphabet.      *)
Spell(o, base, alpha) == LET d == Rebase(o, base, Len(alpha)) IN TLCEval([i \in 1..Len(d) |-> alpha[d[i] + 1]])
Unspell(text, base, alpha) == Rebase(TLCEval([i \in 1..Len(text) |-> DigitOf(text[i], alpha)]), Len(alpha), base)
B58Enc(o, alpha) == Spell(o, 256, alpha)
B58Dec(text, alpha) == Unspell(text, 256, alpha)
=============================================================================
