CONSTANTS
 Half = 2 
 Quart = 1
 OEnt = 2
 OSalt = 1
 ChkLen = 1
 HashLen = 2
 LotMin = 1
 LotMax = 2
 SeqMax = 1
 DSha <- TDSha
 Chk <- TChk
 Hash20 <- THash20
 Kdf1 <- TKdf1
 Kdf2 <- TKdf2
 Enc <- TEnc
 Dec <- TDec
 Gen <- TGen
 Mul <- TMul
 ScMul <- TScMul
 IsScalar <- TIsScalar
 PtC <- TPtC
 PtU <- TPtU
 PtOf <- TPtOf
 PassOct <- TPassOct
 LotSeqOct <- TLotSeq
 LotOf <- TLotOf
 SeqOf <- TSeqOf
 Txt <- TTxt
 TxtOK <- TTxtOK
 UnTxt <- TUnTxt
 Alpha <- TAlpha
 CoinTable <- TCoins
 Hexed <- THexed
