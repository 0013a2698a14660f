-------------------------------- MODULE Ideal --------------------------------
(* What BIP38 is for, without any cryptography: an ideal functionality.          *)
(* Keys, salts, seeds, lots and passphrases are symbols; a text is a term that      *)
(* says what it was made of; an operation looks at the terms of its arguments and     *)
(* nothing else.  Two texts are equal exactly when their terms are.                      *)
(*                                                                                          *)
(* Terms (tuples, the first component names the kind):                                       *)
(*   key   <<"k", symbol>>  or  <<"ec", class, salt, lot, seed>>                              *)
(*   wif   <<"wif", key, comp, WIF prefix>>                                                     *)
(*   enc   <<"enc", key, comp, class, address prefix>>                                          *)
(*   code  <<"code", class, salt, lot>>                                                          *)
(*   ecenc <<"ecenc", code, comp, address prefix, seed>>, cfrm likewise                           *)
(*   addr  <<"addr", key, comp, address prefix>>                                                   *)
(* Gen.tla draws long random behaviours from it, MCIdeal.tla explores it exhaustively,              *)
(* harness/sessions.py puts octets for the symbols and plays the behaviours to the library,          *)
(* and Trace.tla judges what came out, against the terms and against Protocol.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS CoinTable,          \* coin -> [nets: name -> [wif, addr]]
          Pick(_),            \* S: all choices; or one of them
          Passes,             \* passphrases, as they are typed
          Class(_),           \* canonical equivalence class of a passphrase
          Keys, Salts, Seeds, \* symbols
          Lots,               \* pairs of lot and sequence number; "" is none
          Focuses,            \* the <<coin, network>> that a behaviour is about
          MaxLen
VARIABLES log, focus
ivars == <<log, focus>>

NoTerm == <<"none">>
KeyT(s) == <<"k", s>>
WifT(k, comp, pre) == <<"wif", k, comp, pre>>
EncT(k, comp, c, pre) == <<"enc", k, comp, c, pre>>
CodeT(c, salt, lot) == <<"code", c, salt, lot>>
ECKeyT(code, seed) == <<"ec", code[2], code[3], code[4], seed>>
ECEncT(code, comp, pre, seed) == <<"ecenc", code, comp, pre, seed>>
CfrmT(code, comp, pre, seed) == <<"cfrm", code, comp, pre, seed>>
AddrT(k, comp, pre) == <<"addr", k, comp, pre>>
PubT(k, comp) == <<"pub", k, comp>>
PTypeT(comp) == <<"ptype", comp>>
WTypeT(comp) == <<"wtype", comp>>
LotT(l) == IF l = "" THEN NoTerm ELSE <<"lot", l>>
SeqT(l) == IF l = "" THEN NoTerm ELSE <<"seq", l>>
SeedT(s) == <<"seed", s>>
PrivT(k) == <<"key", k>>

(******************************** calls *************************************)
Nets(c) == DOMAIN CoinTable[c].nets
Eff(e) == IF e.ovr = "" THEN e.obj ELSE e.ovr
Net(e) == CoinTable[e.coin].nets[Eff(e)]
Blank == [op |-> "", coin |-> "", obj |-> "", ovr |-> "", i |-> 0, f |-> "", lit |-> NoTerm, edit |-> "", pass |-> "", detail |-> FALSE,
          salt |-> "", lot |-> "", seed |-> "", si |-> 0, comp |-> FALSE, fault |-> ""]
TermOf(e) == IF e.i = 0 THEN e.lit ELSE log[e.i].out[e.f]

(* What a call must come to: <<outcome, reason, reported terms>>.                      *)
Refuse(o, why) == [exp |-> o, why |-> why, out |-> <<>>]
Give(why, out) == [exp |-> "ok", why |-> why, out |-> out]
(* lots use four octets of the salt, no lots all eight                                   *)
SaltT(e) == IF e.salt = "" THEN <<"drawn", Len(log) + 1>> ELSE <<"salt", e.salt, e.lot # "">>
SeedOf(e) == IF e.si # 0 THEN log[e.si].out["seed"][2] ELSE IF e.seed = "" THEN <<"drawn", Len(log) + 1>> ELSE <<"given", e.seed>>
Details(d, full, short) == IF d THEN full ELSE short

Encrypted(e, t) ==
  IF t[1] # "wif" THEN Refuse("lib", "kind")
  ELSE IF t[4] # Net(e).wif THEN Refuse("lib", "foreign")
  ELSE Give("encrypt", [enc |-> EncT(t[2], t[3], Class(e.pass), Net(e).addr)])
KeyReport(e, k, comp, seed, lot) ==
  Details(e.detail, [wif |-> WifT(k, comp, Net(e).wif), key |-> PrivT(k), wtype |-> WTypeT(comp), pub |-> PubT(k, comp), ptype |-> PTypeT(comp),
                     seed |-> seed, addr |-> AddrT(k, comp, Net(e).addr), lot |-> LotT(lot), seq |-> SeqT(lot)],
                    [wif |-> WifT(k, comp, Net(e).wif)])
Decrypted(e, t) ==
  IF t[1] = "enc" THEN
    IF t[4] # Class(e.pass) THEN Refuse("pass", "passphrase")
    ELSE IF t[5] # Net(e).addr THEN Refuse("pass", "network")
    ELSE Give("decrypt-plain", KeyReport(e, t[2], t[3], NoTerm, ""))
  ELSE IF t[1] = "ecenc" THEN
    IF t[2][2] # Class(e.pass) THEN Refuse("pass", "passphrase")
    ELSE IF t[4] # Net(e).addr THEN Refuse("pass", "network")
    ELSE Give("decrypt-ec", KeyReport(e, ECKeyT(t[2], t[5]), t[3], SeedT(t[5]), t[2][4]))
  ELSE Refuse("lib", "kind")
Confirmed(e, t) ==
  IF t[1] # "cfrm" THEN Refuse("lib", "kind")
  ELSE IF t[2][2] # Class(e.pass) THEN Refuse("pass", "passphrase")
  ELSE IF t[4] # Net(e).addr THEN Refuse("pass", "network")
  ELSE LET k == ECKeyT(t[2], t[5])
           a == AddrT(k, t[3], Net(e).addr)
       IN  Give("confirm", Details(e.detail, [pub |-> PubT(k, t[3]), ptype |-> PTypeT(t[3]), addr |-> a, lot |-> LotT(t[2][4]), seq |-> SeqT(t[2][4])],
                                             [addr |-> a]))
Created(e, t) ==
  IF t[1] # "code" THEN Refuse("lib", "kind")
  ELSE LET s == SeedOf(e)
           k == ECKeyT(t, s)
       IN  Give("create", [enc |-> ECEncT(t, e.comp, Net(e).addr, s), cfrm |-> CfrmT(t, e.comp, Net(e).addr, s), pub |-> PubT(k, e.comp),
                           ptype |-> PTypeT(e.comp), seed |-> SeedT(s), addr |-> AddrT(k, e.comp, Net(e).addr)])
Verdict(e) ==
  IF e.op # "icode" /\ Eff(e) \notin Nets(e.coin) THEN Refuse("net", "unknown")
  ELSE IF e.edit # "" THEN Refuse("lib", "damaged")
  ELSE IF e.fault # "" THEN Refuse("lib", "fault")
  ELSE CASE e.op = "object" -> Give("object", <<>>)
         [] e.op = "icode" -> Give("icode", [code |-> CodeT(Class(e.pass), SaltT(e), e.lot)])
         [] e.op = "encrypt" -> Encrypted(e, TermOf(e))
         [] e.op = "decrypt" -> Decrypted(e, TermOf(e))
         [] e.op = "confirm" -> Confirmed(e, TermOf(e))
         [] e.op = "create" -> Created(e, TermOf(e))

(****************************** the state machine ****************************)
TextFields == {"enc", "cfrm", "code", "wif", "addr"}
Texts == {s \in {<<i, f>> : i \in 1..Len(log), f \in TextFields} : log[s[1]].exp = "ok" /\ s[2] \in DOMAIN log[s[1]].out}
Kinds(op) == CASE op = "encrypt" -> {"wif"} [] op = "decrypt" -> {"enc", "ecenc"} [] op = "confirm" -> {"cfrm"} [] op = "create" -> {"code"}
Right(op) == {s \in Texts : log[s[1]].out[s[2]][1] \in Kinds(op)}
Seeded == {i \in 1..Len(log) : "seed" \in DOMAIN log[i].out /\ log[i].out["seed"] # NoTerm}
Rolls(n) == Pick(1..n)
Nonempty(S, d) == IF S = {} THEN d ELSE S

(* On which object, with which override: <<coin, obj, ovr>>, near <<coin, network>>.      *)
Where(c, n) ==
  UNION {IF r = 1 THEN {<<c, o, "nonet">> : o \in Pick(Nets(c))}
         ELSE IF r <= 4 THEN {<<c, o, n>> : o \in Pick(Nets(c))}
         ELSE IF r = 5 THEN {<<c, o, "">> : o \in Pick(Nets(c))} ELSE {<<c, n, "">>} : r \in Rolls(12)}
Anywhere == UNION {Where(p[1], p[2]) : p \in Pick({focus[k] : k \in 1..Len(focus)})}
(* Where the text came from, or anywhere.                                                    *)
Near(s) == UNION {IF r <= 3 \/ log[s[1]].coin = "" THEN Anywhere ELSE Where(log[s[1]].coin, Eff(log[s[1]])) : r \in Rolls(7)}
TypedFor(t) == UNION {IF r <= 2 \/ t[1] \notin {"enc", "ecenc", "cfrm"} THEN Pick(Passes)
                      ELSE Pick({p \in Passes : Class(p) = (IF t[1] = "enc" THEN t[4] ELSE t[2][2])}) : r \in Rolls(6)}
Edits == UNION {IF r = 1 THEN {"typo"} ELSE {""} : r \in Rolls(10)}
Do(e) == LET v == Verdict(e) IN log' = Append(log, e @@ v) /\ UNCHANGED focus
At(e, w) == [e EXCEPT !.coin = w[1], !.obj = w[2], !.ovr = w[3]]
(* A source for op: a text of the right kind, or now and then any text.                        *)
Sources(op) == UNION {IF r = 1 THEN Pick(Texts) ELSE IF Right(op) = {} THEN {} ELSE Pick(Right(op)) : r \in Rolls(9)}

Object == \E w \in Anywhere : Do(At([Blank EXCEPT !.op = "object"], <<w[1], IF w[3] = "" THEN w[2] ELSE w[3], "">>))
EncryptNew ==
  \E w \in Anywhere, k \in Pick(Keys), c \in Pick(BOOLEAN), p \in Pick(Passes), ed \in Edits :
    LET base == At([Blank EXCEPT !.op = "encrypt", !.pass = p, !.edit = ed], w)
    IN  \E n \in Pick(IF Eff(base) \in Nets(base.coin) THEN {Eff(base)} ELSE Nets(base.coin)), r \in Rolls(6) :
          \E m \in (IF r = 1 THEN Pick(Nets(base.coin)) ELSE {n}) :
            Do([base EXCEPT !.lit = WifT(KeyT(k), c, CoinTable[base.coin].nets[m].wif)])
EncryptOld == \E s \in Sources("encrypt") : \E w \in Near(s), p \in Pick(Passes), ed \in Edits :
                Do(At([Blank EXCEPT !.op = "encrypt", !.pass = p, !.i = s[1], !.f = s[2], !.edit = ed], w))
Icode == \E p \in Pick(Passes), s \in Pick(Salts \cup {""}), l \in Pick(Lots \cup {""}), r \in Rolls(12) :
           \E x \in (IF r = 1 THEN Pick({"saltlen", "lotonly", "seqonly", "range"}) ELSE {""}) :
             Do([Blank EXCEPT !.op = "icode", !.pass = p, !.salt = s, !.lot = l, !.fault = x])
Create == \E s \in Sources("create") : \E w \in Near(s), d \in Pick(Seeds \cup {""}), c \in Pick(BOOLEAN), ed \in Edits, r \in Rolls(12) :
            \E x \in (IF r = 1 THEN Pick({"seedlen", "wtype"}) ELSE {""}) :
              \E j \in (IF r >= 10 THEN Pick(Nonempty(Seeded, {0})) ELSE {0}) :
                Do(At([Blank EXCEPT !.op = "create", !.i = s[1], !.f = s[2], !.edit = ed, !.seed = d, !.si = j, !.comp = c, !.fault = x], w))
Open(op) == \E s \in Sources(op) : \E w \in Near(s), p \in TypedFor(log[s[1]].out[s[2]]), d \in Pick(BOOLEAN), ed \in Edits :
              Do(At([Blank EXCEPT !.op = op, !.i = s[1], !.f = s[2], !.edit = ed, !.pass = p, !.detail = d], w))
Again == \E i \in Pick(1..Len(log)) :     \* an earlier call once more; what it draws is drawn anew
           Do([x \in DOMAIN Blank |-> log[i][x]])

Wishes == <<"new", "new", "icode", "icode", "create", "create", "create", "decrypt", "decrypt", "decrypt", "decrypt", "decrypt", "confirm", "confirm", "confirm", "old", "object", "again", "again">>
Enabled(k) == CASE k \in {"new", "icode", "object"} -> TRUE
                [] k = "again" -> log # <<>>
                [] k = "old" -> Right("encrypt") # {}
                [] OTHER -> Right(k) # {}
Step(k) == CASE k = "new" -> EncryptNew [] k = "old" -> EncryptOld [] k = "icode" -> Icode [] k = "create" -> Create
             [] k \in {"decrypt", "confirm"} -> Open(k) [] k = "object" -> Object [] k = "again" -> Again
Init == log = <<>> /\ focus = <<>>
Next == IF focus = <<>> THEN focus' \in Pick(Focuses) /\ UNCHANGED log
        ELSE
        /\ Len(log) < MaxLen
        /\ \E x \in Pick({y \in 1..Len(Wishes) : Enabled(Wishes[y])}) : Step(Wishes[x])
Spec == Init /\ [][Next]_ivars
Says == Len(log) = MaxLen => PrintT("G " \o ToJson(log))

(********************** what the functionality promises **********************)
(* Asked of a whole behaviour; call(e) is a call that could be made now.          *)
Ask(op, s, w, p) == Verdict(At([Blank EXCEPT !.op = op, !.i = s[1], !.f = s[2], !.pass = p, !.detail = TRUE], w))
HomeOf(i) == <<log[i].coin, Eff(log[i]), "">>
Opened == {s \in Texts : log[s[1]].out[s[2]][1] \in {"enc", "ecenc"}}
(* Every issued key opens for whoever knows the passphrase, on its network, however typed. *)
Available == \A s \in Opened : \A p \in Passes :
               LET t == log[s[1]].out[s[2]]
                   v == Ask("decrypt", s, HomeOf(s[1]), p)
               IN  (Class(p) = (IF t[1] = "enc" THEN t[4] ELSE t[2][2])) <=> v.exp = "ok"
(* ... and nowhere but on networks of the same address prefix.                               *)
Local == \A s \in Opened : \A k \in 1..Len(focus) : \A p \in Passes :
           LET w == <<focus[k][1], focus[k][2], "">>
               near == CoinTable[w[1]].nets[w[2]].addr = CoinTable[log[s[1]].coin].nets[Eff(log[s[1]])].addr
           IN  ~near => Ask("decrypt", s, w, p).exp # "ok"
(* ... and to nobody who knows no passphrase it was sealed under, on any network.                *)
ClassOf(t) == IF t[1] = "enc" THEN t[4] ELSE t[2][2]
KeyIn(t) == IF t[1] = "enc" THEN t[2] ELSE ECKeyT(t[2], t[5])
Secret == \A s \in Opened : \A p \in Passes : \A w \in {HomeOf(x[1]) : x \in Opened} :
            LET v == Ask("decrypt", s, w, p)
                k == KeyIn(log[s[1]].out[s[2]])
            IN  v.exp = "ok" => v.out["key"] = PrivT(k) /\ \E x \in Opened : KeyIn(log[x[1]].out[x[2]]) = k /\ ClassOf(log[x[1]].out[x[2]]) = Class(p)
(* A confirmation code speaks for the key made with it: same passphrases, networks, address.    *)
Speaks == \A i \in 1..Len(log) : (log[i].op = "create" /\ log[i].exp = "ok") =>
            \A p \in Passes, w \in {HomeOf(j) : j \in {j \in 1..Len(log) : log[j].op \in {"create", "encrypt"} /\ log[j].exp = "ok"}} :
              LET c == Ask("confirm", <<i, "cfrm">>, w, p)
                  d == Ask("decrypt", <<i, "enc">>, w, p)
              IN  /\ c.exp = d.exp
                  /\ c.exp = "ok" => /\ \A f \in {"addr", "pub", "ptype", "lot", "seq"} : c.out[f] = d.out[f]
                                     /\ \A f \in {"addr", "pub", "ptype"} : c.out[f] = log[i].out[f]
                                     /\ d.out["seed"] = log[i].out["seed"]
(* Encrypting what was decrypted gives the same text again.                                     *)
Stable == \A i \in 1..Len(log) : (log[i].op = "encrypt" /\ log[i].exp = "ok") =>
            LET d == Ask("decrypt", <<i, "enc">>, HomeOf(i), log[i].pass)
            IN  d.exp = "ok" /\ (LET x == At([Blank EXCEPT !.op = "encrypt", !.lit = d.out["wif"], !.pass = log[i].pass], HomeOf(i)) IN Encrypted(x, x.lit).out["enc"] = log[i].out["enc"])
(* Keys made from different codes or different seeds are different keys, and different records. *)
Bound == \A i, j \in 1..Len(log) : (log[i].op = "create" /\ log[j].op = "create" /\ log[i].exp = "ok" /\ log[j].exp = "ok") =>
           LET a == log[i].out IN LET b == log[j].out IN
           /\ TermOf(log[i]) # TermOf(log[j]) \/ a["seed"] # b["seed"] => \A f \in {"enc", "cfrm", "pub", "addr"} : a[f] # b[f]
           /\ (a["enc"] = b["enc"]) = (a["cfrm"] = b["cfrm"])
(* Nothing that is drawn is ever equal to anything drawn or given before.                        *)
Drawn == {<<i, f>> \in {<<i, f>> : i \in 1..Len(log), f \in {"code", "seed"}} : log[i].exp = "ok" /\ f \in DOMAIN log[i].out}
Fresh == \A x, y \in Drawn :
           (x # y /\ x[2] = y[2] /\ log[x[1]].out[x[2]] = log[y[1]].out[y[2]]) =>
              \/ x[2] = "code" /\ log[x[1]].salt # "" /\ log[y[1]].salt # ""
              \/ x[2] = "seed" /\ ~(log[x[1]].op = "create" /\ log[x[1]].seed = "" /\ log[x[1]].si = 0 /\ log[y[1]].op = "create" /\ log[y[1]].seed = "" /\ log[y[1]].si = 0)
=============================================================================
