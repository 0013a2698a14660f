------------------------------ MODULE Ripemd160 ------------------------------
(* RIPEMD-160 (Dobbertin, Bosselaers, Preneel 1996).                          *)
EXTENDS Naturals, Sequences, Octets
LOCAL INSTANCE TLC
LOCAL ML == << 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
  3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 >>
LOCAL MR == << 5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
  15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 >>
LOCAL RL == << 11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
  11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 >>
LOCAL RR == << 8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
  9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 >>
LOCAL KL == << W(0,0), W(23170,31129), W(28377,60321), W(36635,48348), W(43347,64846) >>
LOCAL KR == << W(20642,35814), W(23629,53540), W(28016,16115), W(31341,30441), W(0,0) >>
LOCAL IV == << W(26437,8961), W(61389,43913), W(39098,56574), W(4146,21622), W(50130,57840) >>
LOCAL F(i, x, y, z) ==
  CASE i = 0 -> WXor(x, WXor(y, z))
    [] i = 1 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
    [] i = 2 -> WXor(WOr(x, WNot(y)), z)
    [] i = 3 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
    [] i = 4 -> WXor(x, WOr(y, WNot(z)))
LOCAL RmdStep(v, a) == <<v[5], a, v[2], WRotL(v[3], 10), v[4]>>
LOCAL RmdPath(h, x, m, r, k, left) ==
  Iter(LAMBDA v, j : RmdStep(v, WAdd(WRotL(WSum(<<v[1], F(IF left THEN (j-1) \div 16 ELSE 4 - ((j-1) \div 16), v[2], v[3], v[4]),
                                                  x[m[j] + 1], k[((j-1) \div 16) + 1]>>), r[j]), v[5])), h, 80)
LOCAL RmdJoin(h, l, r) == << WSum(<<h[2], l[3], r[4]>>), WSum(<<h[3], l[4], r[5]>>), WSum(<<h[4], l[5], r[1]>>),
                             WSum(<<h[5], l[1], r[2]>>), WSum(<<h[1], l[2], r[3]>>) >>
LOCAL RmdBlock(h, x) == RmdJoin(h, TLCEval(RmdPath(h, x, ML, RL, KL, TRUE)), TLCEval(RmdPath(h, x, MR, RR, KR, FALSE)))
LOCAL RmdPadded(p) ==
  Iter(LAMBDA h, i : TLCEval(RmdBlock(h, TLCEval([j \in 1..16 |-> WLE(Slice(p, 64 * (i - 1) + 4 * (j - 1), 4))]))),
       IV, Len(p) \div 64)
RmdPad(m) == MdPad(m, BitLenLE(Len(m)))
RIPEMD160(m) == Flat(Fold(LAMBDA a, x : Append(a, OLE(x)), <<>>,
                          RmdPadded(TLCEval(RmdPad(m)))))
=============================================================================
