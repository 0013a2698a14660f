-------------------------------- MODULE MCToy --------------------------------
(* What TLC enumerates of ToySession; the configurations are put together in     *)
(* harness/models.py (constants of toy.inc, a scenario, a depth).                    *)
EXTENDS ToySession
MKeys == {1, 2, 100, 198}
MSeeds == {0, 1, 2, 17, 63, 64}
MPass == {1, 2, 3}
MSalts == {<<0, 1>>, <<2>>, <<>>, <<3, 3, 3>>}
MAllKeys == 0..255
MAllSeeds == 0..64
MAllPass == {1, 2, 3, 4}
MAllSalts == {<<a, b>> : a \in 0..3, b \in 0..3} \cup {<<a>> : a \in 0..3} \cup {<<>>, <<3, 3, 3>>}
ScPlain == {"plain"}
ScEC == {"ec"}
ScBoth == {"plain", "ec"}
ScNets == {"plain", "ec", "nets"}
ScTypos == {"plain", "ec", "typos"}
ScForged == {"plain", "ec", "forgeries"}
ScAll == {"plain", "ec", "nets", "typos", "forgeries"}
=============================================================================
