CONSTANTS
 Half = 1
 Quart = 0
 OEnt = 1
 OSalt = 1
 ChkLen = 1
 HashLen = 2
 LotMin = 1
 LotMax = 2
 SeqMax = 1
 DSha <- None1
 Chk <- MChk
 Hash20 <- None1
 Kdf1 <- None3
 Kdf2 <- None3
 Enc <- None2
 Dec <- None2
 Gen <- NoGen
 Mul <- None2
 ScMul <- None2
 IsScalar <- None1
 PtC <- None1
 PtU <- None1
 PtOf <- None1
 PassOct <- None1
 LotSeqOct <- None2
 LotOf <- None1
 SeqOf <- None1
 Txt <- MTxt
 TxtOK <- InAlphabet
 UnTxt <- MUnTxt
 Alpha <- MMain
