--------------------------------- MODULE Gen ---------------------------------
(* Random behaviours of Ideal over the real coins: tlc -simulate.                *)
EXTENDS Ideal, Coins
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
GPasses == {"a", "a-equivalent", "b", "a-like", "empty"}
GClass(p) == IF p = "a-equivalent" THEN "a" ELSE p
GKeys == {"k1", "k2", "k3"}
GSalts == {"s1", "s2"}
GSeeds == {"d1", "d2"}
GLots == {"l1", "l2"}
GPairs == UNION {{<<c, n>> : n \in DOMAIN RealCoins[c].nets} : c \in DOMAIN RealCoins}
GMulti == {c \in DOMAIN RealCoins : Cardinality(DOMAIN RealCoins[c].nets) > 1}
(* A coin with several networks, one that shares a prefix with it if there is any, and any.  *)
Akin(p) == {q \in GPairs : q # p /\ (RealCoins[q[1]].nets[q[2]].addr = RealCoins[p[1]].nets[p[2]].addr \/ RealCoins[q[1]].nets[q[2]].wif = RealCoins[p[1]].nets[p[2]].wif)}
GFocuses == LET c == RandomElement(GMulti)
                n == RandomElement(DOMAIN RealCoins[c].nets)
                m == RandomElement(DOMAIN RealCoins[c].nets)
                q == RandomElement(Nonempty(Akin(<<c, n>>), GPairs))
                z == RandomElement(GPairs)
            IN  {<< <<c, n>>, <<c, m>>, q, z>>, << <<c, n>>, <<c, n>>, q>>, << <<c, n>>, z, z>>, <<z, q>>, << <<c, n>> >>}
=============================================================================
