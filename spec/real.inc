CONSTANTS
 Half = 16
 Quart = 8
 OEnt = 8
 OSalt = 4
 ChkLen = 4
 HashLen = 20
 LotMin = 100000
 LotMax = 999999
 SeqMax = 4095
 DSha <- SHA256d
 Chk <- RChk
 Hash20 <- RHash160
 Kdf1 <- RKdf1
 Kdf2 <- RKdf2
 Enc <- AES256Enc
 Dec <- AES256Dec
 Gen <- GenG
 Mul <- PointMul
 ScMul <- ScalarMulN
 IsScalar <- IsScalarN
 PtC <- Compressed
 PtU <- Uncompressed
 PtOf <- PointOf
 PassOct <- PassOctets
 LotSeqOct <- RLotSeq
 LotOf <- RLotOf
 SeqOf <- RSeqOf
 Txt <- B58Enc
 TxtOK <- InAlphabet
 UnTxt <- B58Dec
 Alpha <- BitcoinAlphabet
 CoinTable <- RealCoins
 Hexed <- HexCodes
