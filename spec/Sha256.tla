------------------------------- MODULE Sha256 -------------------------------
(* FIPS 180-4 SHA-256, HMAC-SHA-256 and PBKDF2-HMAC-SHA-256 (one iteration).  *)
EXTENDS Naturals, Sequences, Octets
LOCAL INSTANCE TLC

LOCAL K == <<
 W(17034,12184),W(28983,17553),W(46528,64463),W(59829,56229),W(14678,49755),W(23025,4593),W(37439,33444),W(43804,24277),
 W(55303,43672),W(4739,23297),W(9265,34238),W(21772,32195),W(29374,23924),W(32990,45566),W(39900,1703),W(49563,61812),
 W(58523,27073),W(61374,18310),W(4033,40390),W(9228,41420),W(11753,11375),W(19060,33962),W(23728,43484),W(30457,35034),
 W(38974,20818),W(43057,50797),W(45059,10184),W(48985,32711),W(50912,3059),W(54695,37191),W(1738,25425),W(5161,10599),
 W(10167,2693),W(11803,8504),W(19756,28156),W(21304,3347),W(25866,29524),W(30314,2747),W(33218,51502),W(37490,11397),
 W(41663,59553),W(43034,26187),W(49739,35696),W(51052,20899),W(53650,59417),W(54937,1572),W(62478,13701),W(4202,41072),
 W(6564,49430),W(7735,27656),W(10056,30540),W(13488,48309),W(14620,3251),W(20184,43594),W(23452,51791),W(26670,28659),
 W(29839,33518),W(30885,25455),W(33992,30740),W(36039,520),W(37054,65530),W(42064,27883),W(48889,41975),W(50801,30962) >>
LOCAL H0 == << W(27145,58983),W(47975,44677),W(15470,62322),W(42319,62778),
               W(20750,21119),W(39685,26764),W(8067,55723),W(23520,52505) >>

ShaPad(m) == MdPad(m, BitLenBE(Len(m)))
LOCAL s0(x) == WXor(WRotR(x, 7), WXor(WRotR(x, 18), WShR(x, 3)))
LOCAL s1(x) == WXor(WRotR(x, 17), WXor(WRotR(x, 19), WShR(x, 10)))
LOCAL S0(x) == WXor(WRotR(x, 2), WXor(WRotR(x, 13), WRotR(x, 22)))
LOCAL S1(x) == WXor(WRotR(x, 6), WXor(WRotR(x, 11), WRotR(x, 25)))
LOCAL Ch(x, y, z)  == WXor(WAnd(x, y), WAnd(WNot(x), z))
LOCAL Maj(x, y, z) == WXor(WAnd(x, y), WXor(WAnd(x, z), WAnd(y, z)))

LOCAL ShaSchedule(b) ==
  Iter(LAMBDA w, i : Append(w, WSum(<<s1(w[i+14]), w[i+9], s0(w[i+1]), w[i]>>)),
       [i \in 1..16 |-> WBE(Slice(b, 4 * (i - 1), 4))], 48)
LOCAL ShaStep(v, t1, t2) == <<WAdd(t1, t2), v[1], v[2], v[3], WAdd(v[4], t1), v[5], v[6], v[7]>>
LOCAL ShaRound(v, k, w) ==
  ShaStep(v, WSum(<<v[8], S1(v[5]), Ch(v[5], v[6], v[7]), k, w>>), WAdd(S0(v[1]), Maj(v[1], v[2], v[3])))
LOCAL ShaAdd(h, v) == [i \in 1..8 |-> WAdd(h[i], v[i])]
LOCAL ShaRounds(h, w) == ShaAdd(h, Iter(LAMBDA v, t : ShaRound(v, K[t], w[t]), h, 64))
LOCAL ShaPadded(p) ==
  Iter(LAMBDA h, i : TLCEval(ShaRounds(h, TLCEval(ShaSchedule(Slice(p, 64 * (i - 1), 64))))), H0, Len(p) \div 64)
SHA256(m) == Flat(Fold(LAMBDA a, x : Append(a, OBE(x)), <<>>, ShaPadded(TLCEval(ShaPad(m)))))
SHA256d(m) == SHA256(SHA256(m))

LOCAL KeyBlock(k) == LET k1 == IF Len(k) > 64 THEN SHA256(k) ELSE k IN k1 \o Zeros(64 - Len(k1))
HMAC256(k, m) == SHA256(XorS(KeyBlock(k), Rep(92, 64)) \o SHA256(XorS(KeyBlock(k), Rep(54, 64)) \o m))

PBKDF1(p, s, len) == Take(Iter(LAMBDA a, i : a \o HMAC256(p, s \o BE(i, 4)), <<>>, (len + 31) \div 32), len)
=============================================================================
