----------------------------- MODULE ToySession -----------------------------
(* Protocol and Session on the toy instance (substitutions in *.cfg).              *)
EXTENDS Session, Toy
CONSTANTS Keys, Seeds, PassIds, Salts, MaxLen, Scenario
VARIABLES prov, hist, bad
vars == <<prov, hist, bad>>

Pass == << <<101>>, <<100, 1>>, <<102>>, <<>> >>     \* 1 and 2 are canonically equivalent
Passes == {Pass[i] : i \in PassIds}
Coins == DOMAIN TCoins
NetsOf(c) == DOMAIN TCoins[c].nets
Outcome(e) ==
  LET x == IF e.op = "forge" THEN Ok(None) ELSE Prescribed(e)
  IN  IF x.ok THEN [st |-> "ok", lib |-> FALSE, pass |-> FALSE, net |-> FALSE, v |-> x.v]
      ELSE [st |-> "err", lib |-> TRUE, pass |-> x.err = "pass", net |-> x.err = "net", v |-> None]
Do(e0) ==
  LET e == e0 @@ [out |-> Outcome(e0)]
  IN  /\ bad' = Violated(prov, hist, e)
      /\ prov' = ProvNext(prov, e)
      /\ hist' = Append(hist, e)
Last == hist[Len(hist)]
Room == Len(hist) < MaxLen

(* Texts an adversary or a clumsy typist makes from text t.                          *)
Subst(t) == {[t EXCEPT ![i] = v] : i \in 1..Len(t), v \in {-5, 0, 1, 2, 3, 66, 67, 255}} \cup
            {[t EXCEPT ![i] = @ + 1] : i \in 1..Len(t)}
Swaps(t) == {[t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]] : i \in 1..(Len(t) - 1)}
Dels(t) == {Take(t, i - 1) \o Drop(t, i) : i \in 1..Len(t)}
Inss(t) == {Take(t, i) \o <<v>> \o Drop(t, i) : i \in 0..Len(t), v \in {-5, 0, 1}}
Typos(t) == (Subst(t) \cup Swaps(t) \cup Dels(t) \cup Inss(t)) \ {t}
(* The same, but with the checksum put right: non-conforming codes.                   *)
Recheck(t) == LET o == Take(t, Len(t) - 1) IN CText(o, <<0>>)
Forgeries(t) == {CText(u, <<0>>) : u \in Subst(Take(t, Len(t) - 1)) \cup Dels(Take(t, Len(t) - 1)) \cup {<<>>}} \ {t}
Variants(t) == {t} \cup (IF "typos" \in Scenario THEN Typos(t) ELSE {}) \cup (IF "forgeries" \in Scenario THEN {u \in Forgeries(t) : \A i \in 1..Len(u) : u[i] >= 0} ELSE {})

Overrides(obj, eff) == IF obj = eff THEN {"", eff} ELSE {eff}
UnknownNets == IF "nets" \in Scenario THEN {"void"} ELSE {}

EncryptAny ==
  /\ "plain" \in Scenario /\ hist = <<>>
  /\ \E c \in Coins, n \in {"main", "test"}, k \in Keys, comp \in BOOLEAN, p \in Passes :
       /\ n \in NetsOf(c)
       /\ Do([op |-> "encrypt", coin |-> c, obj |-> n, ovr |-> "", text |-> Wif(TDig(k, 4), comp, TCoins[c].nets[n].wif), pass |-> p])
EncryptOther ==          \* the WIF of one network given to another, or damaged
  /\ "plain" \in Scenario /\ Scenario \cap {"nets", "typos", "forgeries"} # {} /\ hist = <<>>
  /\ \E c \in Coins, n \in {"main", "void"}, k \in {5, 255}, comp \in BOOLEAN :
       \E o \in NetsOf(c) :
         \E t \in Variants(Wif(TDig(k, 4), comp, TCoins[c].nets[o].wif)) :
           Do([op |-> "encrypt", coin |-> c, obj |-> n, ovr |-> "", text |-> t, pass |-> Pass[1]])
MakeCode ==
  /\ "ec" \in Scenario /\ hist = <<>>
  /\ \E p \in Passes, s \in Salts, l \in {-1, 0, 1, 2, 3}, q \in {-1, 0, 1, 2} :
       Do([op |-> "icode", pass |-> p, lot |-> <<l>>, seq |-> <<q>>, salt |-> s])
ForgeCode ==
  /\ "ec" \in Scenario /\ hist = <<>>
  /\ \E p \in {Pass[1]}, s \in {<<1, 2>>}, l \in {-1, 7} :
       /\ IsScalar(PassFactor(p, OwnerEntropy(<<l>>, <<l>>, s), l >= 0))
       /\ Do([op |-> "forge", kind |-> "code", pass |-> p, lot |-> <<l>>, seq |-> <<IF l < 0 THEN l ELSE 3>>, salt |-> s])
CreateFrom ==
  /\ "ec" \in Scenario /\ Len(hist) = 1 /\ hist[1].op \in {"icode", "forge"}
  /\ \E t0 \in {x \in DOMAIN prov : prov[x].kind = "code"} : \E t \in Variants(t0) :
     \E c \in Coins, n \in {"main"} \cup UnknownNets, ty \in {TWif, TWifC} \cup (IF t = t0 /\ "nets" \in Scenario THEN {<<1>>} ELSE {}), s \in (IF t = t0 THEN Seeds ELSE {5}) :
       /\ Do([op |-> "create", coin |-> c, obj |-> n, ovr |-> "", text |-> t, wtype |-> ty, seed |-> IF s >= 64 THEN TDig(s, 4) ELSE TDig(s, 3)])
Use ==      \* decrypt or confirm what has been issued, by anyone, anywhere
  /\ hist # <<>> /\ Room /\ Last.op \in {"encrypt", "create", "decrypt", "confirm"}
  /\ \E t0 \in {x \in DOMAIN prov : prov[x].kind \in {"plain", "ec", "cfrm"}} : \E t \in Variants(t0) :
       \E p \in (IF t = t0 THEN Passes ELSE {Pass[1]}), d \in BOOLEAN :
         \E n \in (IF t = t0 THEN NetsOf(prov[t0].coin) ELSE {prov[t0].net}) \cup UnknownNets, obj \in NetsOf(prov[t0].coin) :
           \E ov \in Overrides(obj, n) :
             /\ (t # t0 => obj = prov[t0].net /\ d)
             /\ Do([op |-> IF prov[t0].kind = "cfrm" THEN "confirm" ELSE "decrypt", coin |-> prov[t0].coin, obj |-> obj, ovr |-> ov,
                    text |-> t, pass |-> p, detail |-> d])
Construct == /\ "nets" \in Scenario /\ hist = <<>>
             /\ \E c \in Coins : \E n \in NetsOf(c) \cup UnknownNets : Do([op |-> "object", coin |-> c, obj |-> n])

Init == prov = <<>> /\ hist = <<>> /\ bad = {}
Next == EncryptAny \/ EncryptOther \/ MakeCode \/ ForgeCode \/ CreateFrom \/ Use \/ Construct
Spec == Init /\ [][Next]_vars
(* What an accepted text was opened to makes that very text again: nothing is opened that    *)
(* conforming software would not have issued for this passphrase, network and key.             *)
Rebuilt(e) ==
  LET o == UnTxt(e.text, Alpha)
      oent(i) == Slice(o, i, OEnt)
      lots(r) == ~IsNone(r.lot)
      code(r, i) == CodeText(oent(i), lots(r), PtC(Mul(Gen, PassFactor(e.pass, oent(i), lots(r)))))
  IN  IF e.op = "encrypt"
      THEN LET r == Encrypt(Net(e), e.text, e.pass) IN r.ok => LET d == Decrypt(Net(e), r.v, e.pass) IN d.ok => d.v.wif = e.text
      ELSE IF e.op = "decrypt"
      THEN LET r == Decrypt(Net(e), e.text, e.pass)
           IN  (r.ok /\ \A i \in (4 + ChkLen)..(Len(o) - ChkLen) : o[i] \in 0..3) =>      \* others stand for the same digits
                       /\ Address(Mul(Gen, r.v.key), r.v.comp, Net(e).addr) = r.v.addr
                       /\ e.text = IF r.v.seed = None THEN CText(PlainRecord(r.v.key, r.v.comp, e.pass, AddrHash(r.v.addr)), Alpha)
                                   ELSE Create(Net(e), code(r.v, 3 + ChkLen), r.v.comp, r.v.seed).v.enc
      ELSE IF e.op = "confirm"
      THEN LET r == Confirm(Net(e), e.text, e.pass)
               n == Len(CfrmPrefix)
           IN  r.ok => /\ Slice(o, n + 1, ChkLen) = AddrHash(r.v.addr)
                       /\ o[n + 1] = ECFlag(r.v.comp, lots(r.v))
                       /\ CText(Net(e).addr \o Hash20(r.v.pub), Alpha) = r.v.addr
      ELSE TRUE
Holds == bad = {} /\ (hist # <<>> /\ Last.op \in Netted /\ NetKnown(Last) => Rebuilt(Last))
=============================================================================
