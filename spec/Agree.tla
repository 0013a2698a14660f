-------------------------------- MODULE Agree --------------------------------
(* Behaviours of Ideal played to Protocol instead of the library: at real sizes, *)
(* with octets for all symbols, Protocol must come to what Ideal says, and no         *)
(* clause of Session may object to Protocol.  (Drawn octets are part of the plan.)       *)
EXTENDS Codecs, Ties, Coins, Json, IOUtils
Plans == ndJsonDeserialize(IOEnv.PLAN)
VARIABLES h, done, prov
avars == <<h, done, prov>>
At58(c) == CHOOSE j \in 1..58 : Alpha[j] = c
Shifted(t, pos, amt) == LET j == (pos % Len(t)) + 1 IN [t EXCEPT ![j] = Alpha[((At58(t[j]) + amt - 1) % 58) + 1]]
Filled(x) ==
  LET t == IF x.tref = 0 THEN x.text ELSE done[x.tref].out.v[x.tfield]
      u == IF x.tamt = 0 THEN t ELSE Shifted(t, x.tpos, x.tamt)
      a == IF "text" \in DOMAIN x.e THEN [x.e EXCEPT !.text = u] ELSE x.e
  IN  IF x.sref = 0 THEN a ELSE [a EXCEPT !.seed = UnhexCodes(done[x.sref].out.v["seed"])]
Outcome(e) ==
  LET x == Prescribed(e)
  IN  IF x.ok THEN [st |-> "ok", lib |-> FALSE, pass |-> FALSE, net |-> FALSE, v |-> x.v, msg |-> <<>>]
      ELSE [st |-> "err", lib |-> TRUE, pass |-> x.err = "pass", net |-> x.err = "net", v |-> None, msg |-> <<>>]
Init == h \in 1..Len(Plans) /\ done = <<>> /\ prov = <<>>
Next ==
  /\ Len(done) < Len(Plans[h].events)
  /\ h' = h
  /\ LET f == Filled(Plans[h].events[Len(done) + 1])
         e == f @@ [out |-> Outcome(f)]
         bad == IdealClauses(done, e) \cup Violated(prov, done, e)
     IN  /\ \A c \in bad : PrintT("DIS " \o ToString(h) \o " " \o ToString(Len(done) + 1) \o " " \o c)
         /\ PrintT("COV " \o e.op \o " " \o e.ideal.why)
         /\ done' = Append(done, e)
         /\ prov' = ProvNext(prov, e)
Spec == Init /\ [][Next]_avars
=============================================================================
