--------------------------------- MODULE Ties ---------------------------------
(* Ties an event of a behaviour that Ideal drew to what the real thing returned.  *)
(* Such an event carries ideal: exp ("ok" | "lib" | "pass" | "net"), why, and the     *)
(* terms (as text) of what should be reported.                                           *)
EXTENDS Session
Tied(e) == "ideal" \in DOMAIN e
MeetsIdeal(x, o) ==
  CASE x.exp = "ok" -> o.st = "ok"
    [] x.exp = "lib" -> o.st = "err" /\ o.lib
    [] x.exp = "pass" -> o.st = "err" /\ o.pass
    [] x.exp = "net" -> o.st = "err" /\ o.net
(* The properties a failed expectation speaks to.                                          *)
Whose(e) ==
  LET w == e.ideal.why
  IN  CASE w = "encrypt" -> {"C01"}
        [] w = "decrypt-plain" -> {"C01", "C21"}
        [] w = "decrypt-ec" -> {"C03", "C21"}
        [] w \in {"icode", "create"} -> {"C03"}
        [] w = "confirm" -> {"C05", "C21"}
        [] w = "passphrase" -> {"C07"} \cup (IF ~IsOk(e) THEN {} ELSE {"C10"} \cup (IF e.op = "confirm" THEN {"C05"} ELSE {}))
        [] w \in {"network", "foreign"} -> {"C11"}
        [] w = "unknown" -> {"C11"} \cup (IF LibErr(e) THEN {} ELSE {"C21"})
        [] w = "damaged" -> {"C08"}
        [] w = "kind" -> {"C09"}
        [] w = "fault" -> IF e.op = "icode" /\ LotsBad(e) THEN {"C06"} ELSE {"C21"}
        [] w = "object" -> {"C12"}
(* Equal terms, equal texts; other terms, other texts.  d and e may be one event.             *)
Maker(e) ==
  CASE e.op = "encrypt" -> "C02" [] e.op \in {"icode", "create"} -> "C04" [] e.op = "confirm" -> "C05"
    [] e.op = "decrypt" -> IF e.ideal.why = "decrypt-plain" THEN "C01" ELSE "C03"
Sided(e) == Tied(e) /\ e.out.st = "ok" /\ e.ideal.exp = "ok" /\ e.op # "object"
EqualSets(d, e) ==
  UNION {LET f == x
             same == d.ideal.terms[f] = e.ideal.terms[f]
         IN  V(same /\ d.out.v[f] # e.out.v[f], Maker(e) \o ":same-origin-other-text")
             \cup V(same /\ d.op # e.op /\ d.out.v[f] # e.out.v[f], "C20:reports-disagree")
             \cup V(~same /\ d.out.v[f] = e.out.v[f], Maker(e) \o ":other-origin-same-text")
             \cup V(~same /\ d.out.v[f] = e.out.v[f] /\ f \in {"code", "seed"}, "C18:not-drawn-anew")
         : x \in DOMAIN d.ideal.terms \cap DOMAIN e.ideal.terms}
IdealClauses(past, e) ==
  IF ~Tied(e) THEN {}
  ELSE {p \o ":other-outcome-than-" \o e.ideal.exp : p \in IF MeetsIdeal(e.ideal, e.out) THEN {} ELSE Whose(e)}
       \cup (IF ~Sided(e) THEN {} ELSE UNION {IF Sided(past[k]) THEN EqualSets(past[k], e) ELSE {} : k \in 1..Len(past)})
=============================================================================
