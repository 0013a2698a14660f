From aca79dfc932221c7f0f152b544de416788cb18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 01/12] fix: keep leading zero bytes in non-EC encryption and
 decryption

About one key in 64 has a half that, XORed with the derived half, starts
with a zero byte; encrypt then failed in AES (15-byte block) and decrypt
refused its own 31-byte key. Convert with explicit widths.
---
 bip38/bip38.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index b24b245..25b53dd 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -209,10 +209,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16])
+            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32])
+            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
         ))
 
         encrypted_private_key: bytes = (
@@ -541,7 +541,7 @@ class BIP38:
             decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)
 
             private_key: bytes = integer_to_bytes(
-                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1)
+                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
             )
             if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
                 raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
-- 
2.43.0


From cf4b0ae2e8b0f45aee6c91ee041fc775508dc840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 02/12] fix: keep leading zero bytes in EC-multiplied creation
 and decryption

The seed blocks and the multiplied private key lost leading zero bytes,
so about one creation in 128 failed in AES and about one record in 80
could not be decrypted with the right passphrase.
---
 bip38/bip38.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 25b53dd..02ce4d2 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -316,10 +316,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_wif: str = ensure_string(check_encode((
             integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX) +
@@ -597,7 +597,7 @@ class BIP38:
 
             aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
             encrypted_half_1_half_2_seed_b_last_3 = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32])
+                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32]), 16
             )
             encrypted_half_1_half_2: bytes = encrypted_half_1_half_2_seed_b_last_3[:8]
             encrypted_half_1: bytes = (
@@ -605,7 +605,7 @@ class BIP38:
             )
 
             seed_b: bytes = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16])
+                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16]), 16
             ) + encrypted_half_1_half_2_seed_b_last_3[8:]
 
             factor_b: bytes = double_sha256(seed_b)
@@ -614,7 +614,7 @@ class BIP38:
 
             # multiply private key
             private_key: bytes = integer_to_bytes(
-                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N
+                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N, 32
             )
             public_key: PublicKey = PrivateKey.from_bytes(private_key).public_key()
             wif_type: Literal["wif", "wif-compressed"] = "wif"
-- 
2.43.0


From eff562894c01663d783114446cf98b8ff19f22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 03/12] fix: keep leading zero bytes of the point in
 confirmation codes

About one confirmation code in 128 could not be created, and as many
were refused as an incorrect passphrase with the right passphrase.
---
 bip38/bip38.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 02ce4d2..eba0708 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -331,10 +331,10 @@ class BIP38:
             (bytes_to_integer(scrypt_hash[63:]) & 1) ^ bytes_to_integer(point_b[:1])
         )
         point_b_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1), 16
         ))
         point_b_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_point_b: bytes = (
             point_b_prefix + point_b_half_1 + point_b_half_2
@@ -425,10 +425,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         point_b_half_1: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16])
+            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16]), 16
         )
         point_b_half_2: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32])
+            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32]), 16
         )
         point_b_prefix: bytes = integer_to_bytes(
             bytes_to_integer(encrypted_point_b[:1]) ^ (bytes_to_integer(scrypt_hash[63:]) & 1)
-- 
2.43.0


From aa56758ffc363714213077883b9ef13d717ec23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 04/12] fix: do not drop lot and sequence when one of them is
 zero

Sequence 0 is documented as valid but silently gave a code without lot
and sequence (and a malformed one with a 4-byte salt); lot 0 was ignored
instead of refused.
---
 bip38/bip38.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index eba0708..a10552b 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -124,10 +124,10 @@ class BIP38:
             raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
         if len(owner_salt) == 4 and (lot is None or sequence is None):
             raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
-        if (lot and sequence is None) or (lot is None and sequence):
+        if (lot is None) != (sequence is None):
             raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
 
-        if lot and sequence:
+        if lot is not None and sequence is not None:
             lot, sequence = int(lot), int(sequence)
             if not 100000 <= lot <= 999999:
                 raise Error("Invalid lot", expected="100000 <= lot <= 999999", got=lot)
-- 
2.43.0


From 805247fa4e04fa5d2f6e6ed828373ba63f234a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 05/12] fix: refuse characters outside the alphabet when
 decoding base58

They were silently taken as digit -1, so that for example a text ending
in "...z0" decoded, with a matching checksum, like "...yz".
---
 bip38/bip38.py       | 5 ++++-
 bip38/libs/base58.py | 5 ++++-
 bip38/wif.py         | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index a10552b..479e926 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -505,7 +505,10 @@ class BIP38:
         )
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
-        encrypted_wif_decode: bytes = decode(encrypted_wif)
+        try:
+            encrypted_wif_decode: bytes = decode(encrypted_wif)
+        except ValueError:
+            raise WIFError("Invalid encrypted WIF")
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
 
diff --git a/bip38/libs/base58.py b/bip38/libs/base58.py
index dd0f95f..2df353d 100644
--- a/bip38/libs/base58.py
+++ b/bip38/libs/base58.py
@@ -51,7 +51,10 @@ def decode(data, alphabet=__base58_alphabet):
     val = 0
     prefix = 0
     for c in data:
-        val = (val * len(alphabet)) + alphabet.encode("utf-8").find(c)
+        digit = alphabet.encode("utf-8").find(c)
+        if digit == -1:
+            raise ValueError("invalid base58 character")
+        val = (val * len(alphabet)) + digit
         if val == 0:
             prefix += 1
 
diff --git a/bip38/wif.py b/bip38/wif.py
index 83b8a06..b287b21 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -71,7 +71,10 @@ def decode_wif(
     :rtype: Tuple[bytes, str, bytes]
     """
 
-    raw: bytes = decode(wif)
+    try:
+        raw: bytes = decode(wif)
+    except ValueError:
+        raise WIFError(f"Invalid Wallet Import Format (WIF)")
     if not raw.startswith(integer_to_bytes(wif_prefix)):
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
 
-- 
2.43.0


From d0c8fc6145f7f4f756e7aba20389029aa0547176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 06/12] fix: verify checksum and compression marker when
 decoding a WIF

A mistyped WIF was accepted and a different private key encrypted.
---
 bip38/wif.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bip38/wif.py b/bip38/wif.py
index b287b21..5796522 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -83,6 +83,9 @@ def decode_wif(
     if integer_to_bytes(wif_prefix) != prefix_got:
         raise WIFError("Invalid WIF prefix", expected=prefix_length, got=prefix_got)
 
+    if get_checksum(raw[:-4]) != raw[-4:]:
+        raise WIFError("Invalid Wallet Import Format (WIF) checksum")
+
     raw_without_prefix: bytes = raw[prefix_length:]
     checksum: bytes = raw_without_prefix[-1 * 4:]
     private_key: bytes = raw_without_prefix[:-1 * 4]
@@ -91,6 +94,8 @@ def decode_wif(
     if len(private_key) not in [33, 32]:
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
     elif len(private_key) == 33:
+        if private_key[32:] != integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX):
+            raise WIFError(f"Invalid Wallet Import Format (WIF)")
         private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
         wif_type = "wif-compressed"
 
-- 
2.43.0


From 0a9e55150e3f5a471846065190100f051a569803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 07/12] fix: verify the checksum of the encrypted WIF when
 decrypting

Encrypted keys with a damaged checksum were accepted, and a mistyped one
was reported as an incorrect passphrase.
---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 479e926..21f7f2f 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -511,6 +511,8 @@ class BIP38:
             raise WIFError("Invalid encrypted WIF")
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
+        if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
+            raise WIFError("Invalid encrypted WIF checksum")
 
         prefix: bytes = encrypted_wif_decode[:2]
         flag: bytes = encrypted_wif_decode[2:3]
-- 
2.43.0


From 063ec808485246e9d10473047d2cdae067aa9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 08/12] fix: refuse unknown flags of EC-multiplied keys and
 confirmation codes

They were taken for uncompressed records without lot and sequence,
while unknown flags of non-EC records are refused.
---
 bip38/bip38.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 21f7f2f..6b77a69 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -401,6 +401,8 @@ class BIP38:
             raise Error("Invalid confirmation code prefix", expected=prefix_length, got=prefix_got)
 
         flag: bytes = confirmation_code_decode[5:6]
+        if bytes_to_integer(flag) not in FLAGS["ec"]:
+            raise Error("Invalid flag", expected=[f"{ec:02x}" for ec in FLAGS["ec"]], got=bytes_to_string(flag))
         address_hash: bytes = confirmation_code_decode[6:10]
         owner_entropy: bytes = confirmation_code_decode[10:18]
         encrypted_point_b: bytes = confirmation_code_decode[18:]
@@ -578,6 +580,10 @@ class BIP38:
             return wif
 
         elif prefix == integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX):
+
+            if bytes_to_integer(flag) not in FLAGS["ec"]:
+                raise Error("Invalid flag", expected=[f"{ec:02x}" for ec in FLAGS["ec"]], got=bytes_to_string(flag))
+
             owner_entropy: bytes = encrypted_wif_decode[7:15]
             encrypted_half_1_half_1: bytes = encrypted_wif_decode[15:23]
             encrypted_half_2: bytes = encrypted_wif_decode[23:-4]
-- 
2.43.0


From aa7dfd231df31359d37091428778449ddbed5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 09/12] fix: refuse seeds that are not 24 bytes

Shorter seeds gave an encrypted WIF that no passphrase can decrypt.
---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 6b77a69..c539cf2 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -261,6 +261,8 @@ class BIP38:
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
         seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
+        if len(seed_b) != 24:
+            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
         try:
             intermediate_decode: bytes = check_decode(intermediate_passphrase)
         except ValueError:
-- 
2.43.0


From 7604376ae086cb0843a4137e50c5f3a8616b5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 10/12] fix: refuse point encodings that are not on the curve

Point.from_bytes accepted any raw or uncompressed coordinates, and
compressed ones not below the field prime.
---
 bip38/secp256k1/point.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bip38/secp256k1/point.py b/bip38/secp256k1/point.py
index 1f69c71..4aefb17 100644
--- a/bip38/secp256k1/point.py
+++ b/bip38/secp256k1/point.py
@@ -44,10 +44,8 @@ class Point:
         """
 
         try:
-            return cls(
-                PointJacobi.from_bytes(
-                    curve_secp256k1, point
-                )
+            point_obj: PointJacobi = PointJacobi.from_bytes(
+                curve_secp256k1, point
             )
         except keys.MalformedPointError as ex:
             raise Secp256k1Error("Invalid point key bytes") from ex
@@ -57,6 +55,14 @@ class Point:
                 bytes_to_integer(point[COORDINATE_POINT_LENGTH:])
             )
 
+        # PointJacobi doesn't check that coordinates are in range and on the curve
+        if not (
+            point_obj.x() < curve_secp256k1.p() and point_obj.y() < curve_secp256k1.p()
+            and curve_secp256k1.contains_point(point_obj.x(), point_obj.y())
+        ):
+            raise Secp256k1Error("Invalid point key bytes")
+        return cls(point_obj)
+
     @classmethod
     def from_coordinates(cls, x: int, y: int) -> "Point":
         """
-- 
2.43.0


From 3a873a97e12afec20177bb0694b5aca8fecf0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 11/12] fix: report a wrong passphrase as such when the value
 it gives is out of range

---
 bip38/bip38.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index c539cf2..2c3ac58 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -420,7 +420,7 @@ class BIP38:
         if lot_and_sequence:
             pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
         if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
-            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")
+            raise PassphraseError("Incorrect passphrase")
 
         pass_point: bytes = PrivateKey.from_bytes(pass_factor).public_key().raw_compressed()
         salt: bytes = address_hash + owner_entropy
@@ -553,7 +553,7 @@ class BIP38:
                 bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
             )
             if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
-                raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
+                raise PassphraseError("Incorrect passphrase")
 
             public_key: PublicKey = PrivateKey.from_bytes(private_key).public_key()
             address: str = P2PKHAddress.encode(
@@ -601,7 +601,7 @@ class BIP38:
             if lot_and_sequence:
                 pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
             if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
-                raise Error("Invalid EC encrypted WIF (Wallet Import Format)")
+                raise PassphraseError("Incorrect passphrase")
 
             pre_public_key: PublicKey = PrivateKey.from_bytes(pass_factor).public_key()
             salt = address_hash + owner_entropy
@@ -623,7 +623,7 @@ class BIP38:
 
             factor_b: bytes = double_sha256(seed_b)
             if bytes_to_integer(factor_b) == 0 or bytes_to_integer(factor_b) >= N:
-                raise Error("Invalid EC encrypted WIF (Wallet Import Format)")
+                raise PassphraseError("Incorrect passphrase")
 
             # multiply private key
             private_key: bytes = integer_to_bytes(
-- 
2.43.0


From 5da151214b74c264e01a84040abde82263b1d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:53 +0000
Subject: [PATCH 12/12] fix: refuse coordinates that are not of a point of the
 curve

---
 bip38/secp256k1/point.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bip38/secp256k1/point.py b/bip38/secp256k1/point.py
index 4aefb17..d1b93db 100644
--- a/bip38/secp256k1/point.py
+++ b/bip38/secp256k1/point.py
@@ -77,6 +77,12 @@ class Point:
         :rtype: IPoint
         """
 
+        # the curve only checks coordinates modulo its prime, and by assertion
+        if not (
+            0 <= x < curve_secp256k1.p() and 0 <= y < curve_secp256k1.p()
+            and curve_secp256k1.contains_point(x, y)
+        ):
+            raise Secp256k1Error("Invalid point coordinates")
         return cls(
             PointJacobi.from_affine(
                 _Point(curve_secp256k1, x, y)
-- 
2.43.0

