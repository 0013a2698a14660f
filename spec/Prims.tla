-------------------------------- MODULE Prims --------------------------------
(* Every primitive of the real instance, evaluated on the inputs of a file.      *)
(* Setup runs this module twice, from the definitions alone and with the Java       *)
(* overrides, and compares the two with each other and with published values.        *)
EXTENDS Codecs, Coins, Json, IOUtils
Inputs == ndJsonDeserialize(IOEnv.INPUTS)
VARIABLES k, done
B(b) == IF b THEN <<1>> ELSE <<0>>
Value(q) ==
  LET a == q.a
  IN  CASE q.fn = "sha256" -> SHA256(a[1])
        [] q.fn = "sha256d" -> SHA256d(a[1])
        [] q.fn = "ripemd160" -> RIPEMD160(a[1])
        [] q.fn = "pbkdf1" -> PBKDF1(a[1], a[2], q.n)
        [] q.fn = "standin" -> STANDIN(a[1], a[2], 1024, 1, 1, q.n)
        [] q.fn = "scrypt" -> SCRYPT(a[1], a[2], q.p[1], q.p[2], q.p[3], q.n)
        [] q.fn = "aesenc" -> AES256Enc(a[1], a[2])
        [] q.fn = "aesdec" -> AES256Dec(a[1], a[2])
        [] q.fn = "b58enc" -> B58Enc(a[1], a[2])
        [] q.fn = "b58dec" -> B58Dec(a[1], a[2])
        [] q.fn = "inalpha" -> B(InAlphabet(a[1], a[2]))
        [] q.fn = "rebase" -> Rebase(a[1], 256, 10)
        [] q.fn = "nfc" -> NFC(a[1])
        [] q.fn = "oncurve" -> B(OnCurve(a[1]))
        [] q.fn = "pointof" -> PointOf(a[1])
        [] q.fn = "add" -> PointAdd(a[1], a[2])
        [] q.fn = "mul" -> PointMul(a[1], a[2])
        [] q.fn = "scmul" -> ScalarMulN(a[1], a[2])
        [] q.fn = "flat" -> Flat(a)
        [] q.fn = "xor" -> XorS(a[1], a[2])
        [] q.fn = "codes" -> Codes(StrOf(a[1]))
        [] q.fn = "hex" -> HexCodes(a[1])
        [] q.fn = "unhex" -> Unhex(StrOf(a[1]))
        [] q.fn = "leaks" -> B(Leaks(a[1], a[2], q.n, a[3]))
Init == k \in 1..Len(Inputs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ PrintT("P " \o ToString(k) \o " " \o ToString(Value(Inputs[k])))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
