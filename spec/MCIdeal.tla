------------------------------- MODULE MCIdeal -------------------------------
(* Ideal, exhaustively, in the small.                                            *)
EXTENDS Ideal
All(S) == S
MPasses == {"a", "a-equivalent", "b"}
MClass(p) == IF p = "a-equivalent" THEN "a" ELSE p
MKeys == {"k1"}
MSalts == {"s1"}
MSeeds == {"d1"}
MLots == {"l1"}
Btc == [nets |-> ("main" :> [wif |-> 1, addr |-> 10]) @@ ("test" :> [wif |-> 2, addr |-> 11]) @@ ("reg" :> [wif |-> 2, addr |-> 11])]
Oth == [nets |-> ("main" :> [wif |-> 1, addr |-> 12])]
MCoins == ("Btc" :> Btc) @@ ("Oth" :> Oth)
MFocuses == {<< <<"Btc", "main">>, <<"Btc", "test">>, <<"Oth", "main">> >>}
MFocuses1 == {<< <<"Btc", "main">> >>}
=============================================================================
