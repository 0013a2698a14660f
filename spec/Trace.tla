-------------------------------- MODULE Trace --------------------------------
(* Recorded histories of the real library, judged by Session and Codecs.        *)
(* The file IOEnv.TRACE holds one history per line: [id, events].  Histories are    *)
(* independent (one initial state each); within one, every event is a transition.     *)
(* A verdict is total: whatever was recorded, the event is consumed and what it          *)
(* breaks is printed; that all events were consumed is the number of states.               *)
EXTENDS Codecs, Ties, Coins, Effects, Json, IOUtils
CONSTANT Prop          \* the property whose clauses are printed ("" : all)
Histories == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, prov
tvars == <<h, i, prov>>

Wanted(c) == Prop = "" \/ SubSeq(c, 1, 3) = Prop \/ SubSeq(c, 1, 3) = "ALL"
OddOnes(e) == (IF e.out.st = "hang" THEN {"ALL:does-not-return"} ELSE {}) \cup (IF e.out.st = "odd" THEN {"ALL:result-has-another-shape"} ELSE {})
Judged(p, past, e) ==
  IF Prop = "C19" THEN    \* what came before, and nothing else
    OddOnes(e) \cup (IF e.op \in CodecOps THEN CodecPairs(past, e) ELSE UNION {PairClauses(past[k], e) : k \in 1..Len(past)})
  ELSE IF Prop = "C24" THEN OddOnes(e) \cup EffectClauses(e)
  ELSE
  (IF e.op \in CodecOps THEN CodecViolated(e) \cup CodecPairs(past, e) ELSE Violated(p, past, e) \cup (IF e.out.st \in {"ok", "err"} THEN FreshClauses(e) ELSE {}) \cup (IF e.out.st \in {"ok", "err"} THEN IdealClauses(past, e) ELSE {}))
  \cup (IF Prop = "C23" /\ e.op # "forge" THEN SecretClauses(p, e) ELSE {})
Init == h \in 1..Len(Histories) /\ i = 0 /\ prov = <<>>
Next ==
  /\ i < Len(Histories[h].events)
  /\ i' = i + 1
  /\ h' = h
  /\ LET e == Histories[h].events[i + 1]
         past == Take(Histories[h].events, i)
         bad == {c \in Judged(prov, past, e) : Wanted(c)}
     IN  /\ \A c \in bad : PrintT("BAD " \o ToString(Histories[h].id) \o " " \o ToString(i + 1) \o " " \o c)
         /\ PrintT("COV " \o ClassOf(prov, e))
         /\ prov' = IF e.op \in CodecOps \cup {"import"} THEN prov ELSE ProvNext(prov, e)
Spec == Init /\ [][Next]_tvars
=============================================================================
