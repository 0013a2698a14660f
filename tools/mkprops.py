#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

B = "bip38/bip38.py"
prop("C01", "Plain encryption round-trips for every key, passphrase, coin and network",
 "For every valid private key, in compressed or uncompressed WIF form, every supported coin and network (and a coin a user defines in the same form) and every passphrase, "
 "encrypting the WIF succeeds, and decrypting the result with the same passphrase on the same network returns exactly that WIF. "
 "This includes keys and passphrases for which the key, or any value computed on the way, begins with zero bytes.",
 ["inputs", "configurations"], "all private keys 1..N-1, both WIF types, all passphrases, all 180 coin/network pairs",
 "The tests encrypt four fixed WIFs and never decrypt what they encrypted; values that start with a zero byte occur once in about 64 random keys and never in the samples.",
 [B, "bip38/wif.py", "bip38/utils.py"],
 [("encrypt: XOR with derived half, AES per half", B + ":encrypt"), ("decrypt, non-EC branch", B + ":decrypt"), ("fixed-width integer/byte conversion", "bip38/utils.py:integer_to_bytes")],
 ["BIP38.encrypt", "BIP38.decrypt"])

prop("C02", "Plain encrypted keys are byte for byte the records BIP38 prescribes",
 "The encrypted text of a WIF is exactly the BIP38 non-EC record: prefix 0142, flag c0 or e0 by compression, the first four bytes of double SHA-256 of the P2PKH address as salt, "
 "scrypt(N=16384, r=8, p=8, 64 bytes) of the NFC/UTF-8 passphrase, AES-256 of each key half XORed with the first derived half, in Base58Check. "
 "Conversely, every such record made by any other conforming implementation decrypts, with its passphrase, to the key and compression it was made from.",
 ["inputs", "configurations"], "all keys, WIF types, passphrases, coins and networks; all conforming records of foreign origin",
 "Tests compare four fixed outputs under one passphrase on Bitcoin; a self-consistent change in an unexercised branch leaves them green but makes wallets unreadable elsewhere.",
 [B, "bip38/const.py", "bip38/crypto.py", "bip38/libs/base58.py"],
 [("record assembly", B + ":encrypt"), ("record parsing", B + ":decrypt"), ("prefix and flag constants", "bip38/const.py")],
 ["BIP38.encrypt", "BIP38.decrypt"])

prop("C03", "EC-multiplied keys can always be decrypted by the passphrase owner",
 "For every passphrase, owner salt, optional lot and sequence, 24-byte seed, WIF type, coin and network, creating an encrypted key from the owner's intermediate code succeeds without the passphrase. "
 "Decrypting it with the owner's passphrase yields a private key of the requested WIF type whose public key and address are the ones reported at creation, together with the same seed.",
 ["inputs", "configurations"], "all passphrases, salts, lot/sequence pairs, seeds, WIF types, coins and networks",
 "Tests check two creation samples and a handful of fixed decryptions; they never chain intermediate code, creation and decryption, and zero-leading intermediate values never occur in them.",
 [B, "bip38/secp256k1/point.py", "bip38/secp256k1/public_key.py", "bip38/secp256k1/private_key.py", "bip38/utils.py"],
 [("pass point times factor b", B + ":create_new_encrypted_wif"), ("EC branch: seed recovery and scalar product mod N", B + ":decrypt"), ("pass factor derivation", B + ":intermediate_code")],
 ["BIP38.intermediate_code", "BIP38.create_new_encrypted_wif", "BIP38.decrypt"])

prop("C04", "Intermediate codes, EC keys and confirmation codes conform to BIP38 exactly",
 "For given passphrase, salt, lot/sequence and seed, the intermediate code, the EC-multiplied encrypted key and the confirmation code are byte for byte those of the BIP38 specification (magic, prefixes, flags, address hash, owner entropy, both scrypt stages, the interleaved AES blocks, the masked point). "
 "Codes and records produced by any other conforming implementation are accepted and give the same key, address, lot and sequence.",
 ["inputs", "configurations"], "all parameters of the EC-multiply flow, with and without lot/sequence, both WIF types, all coins and networks",
 "Tests pin three intermediate codes and two created keys; most combinations of mode, compression, network and passphrase are never compared with the standard.",
 [B, "bip38/const.py", "bip38/crypto.py"],
 [("intermediate code layout", B + ":intermediate_code"), ("record and confirmation layout", B + ":create_new_encrypted_wif"), ("flag tables", "bip38/const.py:FLAGS")],
 ["BIP38.intermediate_code", "BIP38.create_new_encrypted_wif", "BIP38.confirm_code", "BIP38.decrypt"])

prop("C05", "A confirmation code vouches for exactly the key its encrypted record holds",
 "For every created key, confirming its confirmation code with the owner's passphrase on the creation network succeeds and returns the same address, public key, public key type, lot and sequence that were reported at creation and that decrypting the encrypted record yields. "
 "No other passphrase confirms the code.",
 ["inputs", "configurations"], "all passphrases, salts, lot/sequence pairs, seeds, WIF types, coins and networks",
 "Tests confirm two fixed codes and compare them with constants, never with the decryption of the sibling record; the padding of the decrypted point halves is never exercised.",
 [B], [("point b reconstruction", B + ":confirm_code"), ("point b masking", B + ":create_new_encrypted_wif")],
 ["BIP38.confirm_code", "BIP38.create_new_encrypted_wif", "BIP38.decrypt"])

prop("C06", "Lot and sequence survive over their whole range and are never dropped",
 "Every lot from 100000 to 999999 with every sequence from 0 to 4095 gives a lot/sequence code, and exactly that lot and sequence are reported by confirmation and by decryption; keys made without them report neither. "
 "A lot or sequence outside its range, or one given without the other, is refused with the library's error; they are never silently ignored or altered.",
 ["inputs"], "all pairs of lot and sequence, inside and outside the range, present or absent, with 4-byte or 8-byte salts",
 "Tests use lot 100000 and 199999 with sequence 1; boundary values (sequence 0, 4095, lot 999999, lot 0) are never tried.",
 [B], [("range and presence checks", B + ":intermediate_code"), ("lot * 4096 + sequence split", B + ":confirm_code"), ("lot * 4096 + sequence split", B + ":decrypt")],
 ["BIP38.intermediate_code", "BIP38.confirm_code", "BIP38.decrypt"])

prop("C07", "A wrong passphrase is always refused as such and never yields a key",
 "Decrypting any encrypted key, or confirming any confirmation code, with a passphrase that is not equivalent to the one it was made with raises the library's passphrase error and returns nothing, except with the 2^-32 probability that the address check collides. "
 "The error is the passphrase error whatever value the wrong passphrase happens to decrypt to.",
 ["inputs"], "all records of both modes and all confirmation codes, all non-equivalent passphrases",
 "Tests try one wrong passphrase on two confirmation codes and none on decrypt; about one wrong passphrase in 256 decrypts to a value with leading zero bytes.",
 [B], [("address hash comparison", B + ":decrypt"), ("address hash comparison", B + ":confirm_code")],
 ["BIP38.decrypt", "BIP38.confirm_code"])

prop("C08", "Mistyped or corrupted codes are rejected, never processed as valid",
 "Any text obtained from a valid encrypted key, intermediate code, confirmation code or WIF by substituting, inserting, deleting or swapping characters, including characters outside the Base58 alphabet, is rejected with the library's error by the operation that takes it (up to the 2^-32 chance of a matching checksum). "
 "No key, code or address is ever produced from it.",
 ["inputs"], "all corruptions of all valid codes and WIFs, at every character position including the checksum",
 "Tests pass three obviously fake strings; single-character errors, errors within the checksum and non-alphabet characters are never tried.",
 [B, "bip38/wif.py", "bip38/libs/base58.py"],
 [("Base58Check verification", "bip38/libs/base58.py:check_decode"), ("WIF decoding", "bip38/wif.py:decode_wif"), ("encrypted key decoding", B + ":decrypt")],
 ["BIP38.encrypt", "BIP38.decrypt", "BIP38.create_new_encrypted_wif", "BIP38.confirm_code"])

prop("C09", "Correctly checksummed but non-conforming codes are refused",
 "A text with a correct checksum whose content is not a conforming code - wrong length, unknown prefix, magic or flag byte, a pass point that is not on the curve, a private key of zero or not below the group order, a compression marker other than 01 - is refused with the library's error by the operation that takes it.",
 ["inputs"], "all checksum-valid texts of any length and content offered as WIF, encrypted key, intermediate code or confirmation code",
 "Building such texts needs a deliberate encoder; the tests contain none.",
 [B, "bip38/wif.py", "bip38/const.py"],
 [("length, prefix, flag checks", B + ":decrypt"), ("length and prefix checks", B + ":confirm_code"), ("length, magic checks", B + ":create_new_encrypted_wif"), ("prefix, length checks", "bip38/wif.py:decode_wif")],
 ["BIP38.encrypt", "BIP38.decrypt", "BIP38.create_new_encrypted_wif", "BIP38.confirm_code"])

prop("C10", "Passphrases are equated by Unicode NFC and by nothing weaker or stronger",
 "Two passphrases that are canonically equivalent (equal after NFC) are interchangeable in every operation: what is encrypted, created or coded under one is decrypted and confirmed under the other, and they give identical codes. "
 "Passphrases that differ after NFC (case, spaces, width or compatibility variants, control and NUL characters, characters outside the BMP) are different passphrases. "
 "(One exception is scrypt's own: texts of up to 64 octets that differ only in NUL characters at the end are one key to its HMAC.)",
 ["inputs"], "all pairs of Unicode passphrases, in all five operations",
 "Tests use three ASCII passphrases.",
 [B], [("unicodedata.normalize('NFC') at each key derivation", B)],
 ["BIP38.encrypt", "BIP38.decrypt", "BIP38.intermediate_code", "BIP38.confirm_code"])

prop("C11", "Keys stay on their network: mismatches are refused, overrides are exact",
 "Encryption refuses a WIF whose prefix is not that of the selected network, decryption and confirmation on a network whose address prefix differs from the one of creation fail with the passphrase error, and unknown network names are refused with the network error. "
 "Passing a network to a call has exactly the effect of using an object constructed for that network, for that call only.",
 ["inputs", "configurations", "histories"], "all pairs of coin networks (of coins users define, too, whatever they are called), all operations, default and overridden networks in any order",
 "Tests only try one fake network name and the two Bitcoin networks with matching data.",
 [B, "bip38/wif.py"], [("network selection at the head of each operation", B), ("WIF prefix check", "bip38/wif.py:decode_wif")],
 ["BIP38.encrypt", "BIP38.decrypt", "BIP38.create_new_encrypted_wif", "BIP38.confirm_code"])

prop("C12", "Every supported coin and network uses its documented prefixes everywhere",
 "For each of the documented coins and networks the library accepts the coin and network, and every WIF and address it produces or consumes for them, in every operation and both key types, carries exactly the documented WIF and address prefix, one byte or two, written in the coin's declared Base58 alphabet.",
 ["configurations", "inputs"], "all 155 coins, 180 coin/network pairs, all operations, both key types",
 "Tests only use Bitcoin; the other 154 coins and all two-byte prefixes are never executed.",
 ["bip38/cryptocurrencies.py", "bip38/p2pkh_address.py", "bip38/wif.py", B],
 [("coin table", "bip38/cryptocurrencies.py"), ("documented table", "README.md, docs/cryptocurrencies.rst"), ("prefix encoding", "bip38/p2pkh_address.py:encode"), ("prefix encoding", "bip38/wif.py:encode_wif")],
 ["BIP38.*", "wif.private_key_to_wif", "P2PKHAddress.encode"])

prop("C13", "WIF encoding and decoding are exact inverses that classify correctly",
 "For every 32-byte private key, WIF type and one-byte prefix, the WIF text is the standard one (prefix, key, 01 marker if compressed, four-byte double SHA-256 checksum, Base58), and decoding it under that prefix returns the same key, the same type and that checksum. "
 "Decoding under another prefix, and encoding keys of another length or unknown types, is refused.",
 ["inputs", "configurations"], "all keys including leading zeros and 0xff, all prefixes, both types, all WIF helpers",
 "Tests encode and decode one key for three networks.",
 ["bip38/wif.py", "bip38/libs/base58.py"],
 [("encode_wif / decode_wif", "bip38/wif.py"), ("helpers", "bip38/wif.py:get_wif_type, get_wif_checksum, wif_to_private_key, private_key_to_wif")],
 ["bip38.wif"])

prop("C14", "P2PKH addresses encode and decode exactly, for any prefix and alphabet",
 "The address of a public key is Base58Check of the network prefix followed by RIPEMD-160 of SHA-256 of the key in the requested compressed or uncompressed form, whichever form the key was supplied in. "
 "Decoding an address under its own prefix and alphabet returns exactly that hash, and any address with another prefix, another length, a damaged checksum or foreign characters is refused.",
 ["inputs", "configurations"], "all public keys, forms, prefixes (one or two bytes, leading zeros), alphabets, corrupted addresses",
 "Tests encode and decode one key in two forms under one prefix and never reject an address.",
 ["bip38/p2pkh_address.py", "bip38/crypto.py", "bip38/libs/base58.py"],
 [("encode", "bip38/p2pkh_address.py:encode"), ("decode", "bip38/p2pkh_address.py:decode")], ["P2PKHAddress.encode", "P2PKHAddress.decode"])

prop("C15", "Base58 and Base58Check are a bijection on their canonical texts",
 "For every byte string, of any length and with any number of leading zero bytes, and for every 58-character ASCII alphabet, decoding the encoding returns the same bytes, each leading zero byte being one first-alphabet character. "
 "Encoding inverts decoding on every text over the alphabet, the checked variant accepts exactly texts ending in the four-byte double SHA-256 checksum, and texts with characters outside the alphabet are refused.",
 ["inputs"], "all byte strings, all texts over the alphabet, all texts with foreign characters, both alphabets in use",
 "No test calls the Base58 module directly; fixed vectors contain no run of leading zeros and no foreign character.",
 ["bip38/libs/base58.py"], [("encode / decode / check_encode / check_decode", "bip38/libs/base58.py")], ["bip38.libs.base58"])

prop("C16", "The secp256k1 wrappers implement the curve group and reject non-points",
 "For all private keys the public key is that multiple of the generator; point addition and scalar multiplication follow the group law in either operand order, and every serialisation of a point or key (compressed, uncompressed, raw, coordinates) reads back as the same object, with fixed-width encodings. "
 "Byte strings and coordinates that are not those of a point of the curve, scalars outside 1..N-1, and public keys or scalars of a wrong length, are refused with the library's secp256k1 error.",
 ["inputs"], "all scalars and points, including small and extreme scalars and coordinates with leading zero bytes; malformed encodings",
 "Tests use one key pair and never add, multiply or reject a point.",
 ["bip38/secp256k1/point.py", "bip38/secp256k1/public_key.py", "bip38/secp256k1/private_key.py"],
 [("Point", "bip38/secp256k1/point.py"), ("PublicKey", "bip38/secp256k1/public_key.py"), ("PrivateKey", "bip38/secp256k1/private_key.py")],
 ["Point", "PublicKey", "PrivateKey"])

prop("C17", "Hash helpers equal the standard functions, with or without OpenSSL RIPEMD",
 "For every input of every length, given as bytes or as hex text, the SHA-256, double SHA-256, checksum, RIPEMD-160 and HASH160 helpers return the standard digests. "
 "RIPEMD-160 gives the same result whether the platform's hash library offers it or the bundled implementation is used.",
 ["inputs", "configurations"], "all inputs of all lengths (all padding cases), both RIPEMD-160 back ends",
 "Tests hash one 8-byte value; the bundled RIPEMD-160 has nine vectors, and the fallback selection is never exercised where OpenSSL has RIPEMD-160.",
 ["bip38/crypto.py", "bip38/libs/ripemd160.py"], [("backend selection", "bip38/crypto.py:ripemd160"), ("bundled implementation", "bip38/libs/ripemd160.py")],
 ["bip38.crypto", "bip38.libs.ripemd160"])

prop("C18", "Omitted salts and seeds are fresh, unpredictable and full-size every time",
 "Whenever no owner salt or seed is given, each call uses new random bytes of the full documented size (8 and 24 bytes) that do not repeat across calls, objects or processes and do not depend on the state of a seedable generator. "
 "The result is a usable code or key that reports the seed it used.",
 ["histories", "inputs"], "all sequences of calls with omitted randomness, in one or several processes",
 "Tests always pass the salt and seed.",
 [B], [("os.urandom(8)", B + ":intermediate_code"), ("os.urandom(24)", B + ":create_new_encrypted_wif")],
 ["BIP38.intermediate_code", "BIP38.create_new_encrypted_wif"])

prop("C19", "Calls are independent: no history or interleaving changes any result",
 "The result of every operation with explicit arguments depends on those arguments and the object's coin and network only. "
 "No sequence of earlier calls, failed calls, use of other objects, or concurrent call in another thread, at whatever point it is interleaved, changes it.",
 ["histories", "schedules"], "all call histories over shared and separate objects, and all preemption points of concurrent calls",
 "Tests make isolated calls, each on a new object, in a single thread.",
 [B], [("absence of mutable shared state", "bip38/")],
 ["BIP38.*"],
 [("self.network, self.networks, self.cryptocurrency", "the object's fixed configuration", B + ":__init__")])

prop("C20", "Detailed results agree with plain results and with themselves",
 "For decryption and confirmation the detailed result and the plain result of the same call agree: the plain WIF or address is the one in the detailed record, and one is refused exactly when the other is. "
 "In every detailed or creation record the private key, WIF, WIF type, public key, public key type, address, seed, lot and sequence describe one and the same key, and fields that do not apply are empty.",
 ["inputs", "configurations"], "all successful and failing decryptions and confirmations, all creations, all modes, coins and networks",
 "Tests compare each field with constants for fixed samples only.",
 [B], [("result dictionaries", B + ":decrypt"), ("result dictionaries", B + ":confirm_code"), ("result dictionaries", B + ":create_new_encrypted_wif")],
 ["BIP38.decrypt(detail)", "BIP38.confirm_code(detail)", "BIP38.create_new_encrypted_wif"])

prop("C21", "Unusable parameters are refused before any code is issued",
 "An owner salt that is not 8 bytes (or 4 bytes with lot and sequence), a seed that is not 24 bytes, an unknown WIF type, an unsupported coin class or network is refused with the library's error; usable parameters are not refused. "
 "Every intermediate code, encrypted key and confirmation code that is issued is well formed, accepted by the operation it is meant for, and decryptable.",
 ["inputs"], "all salts and seeds of any length, as bytes or hex, all WIF type values, with and without lot and sequence",
 "Tests pass only well-sized salts and seeds; a seed of a wrong size silently gives a key nobody can decrypt.",
 [B], [("salt length checks", B + ":intermediate_code"), ("seed handling, WIF type check", B + ":create_new_encrypted_wif"), ("constructor checks", B + ":__init__")],
 ["BIP38.intermediate_code", "BIP38.create_new_encrypted_wif", "BIP38()"])

prop("C22", "Byte, hex and integer conversions are lossless and interchangeable",
 "For every byte string and non-negative integer (and, where a signed conversion is asked for, every integer of the width), converting between bytes, hex text and integers, in either byte order and with or without an explicit width, and back gives the original value, with the minimal width used when none is given, reversing bytes twice is the identity, and text becomes its UTF-8 encoding or is refused where it has none. "
 "Wherever the library accepts binary data as hex text or as raw bytes (salts, seeds, private and public keys, hash inputs) both forms give the same result.",
 ["inputs"], "all byte strings, integers, widths, byte orders; all operations with bytes-or-hex parameters",
 "Tests only check the types of results on random data.",
 ["bip38/utils.py", "bip38/wif.py", B], [("conversions", "bip38/utils.py")], ["bip38.utils", "BIP38.*", "bip38.wif", "bip38.crypto"])

prop("C23", "Refusals never disclose the passphrase or key material",
 "When any operation refuses its input, the error (its text, the fields of the library's error, chained causes) and whatever the call prints, logs or warns of contain neither the passphrase nor the private key, its WIF, the seed or any other secret handed to the call.",
 ["inputs"], "all refused calls of all operations, whatever the reason for the refusal",
 "Tests check that an error is raised, not what it says.",
 [B, "bip38/wif.py", "bip38/exceptions.py"], [("error construction", "bip38/exceptions.py:Error"), ("raise sites", B)],
 ["str(exception)"])

prop("C24", "Operations do nothing but return or refuse: secrets leave by the result only",
 "No operation, importing the library included, has an effect besides its result, whether it succeeds or refuses: it writes or removes no file, starts no process, uses no network, prints nothing, "
 "and leaves what the process has only one of as it was: the shared random generator, environment, working directory, locale, decimal context, signal handlers, interpreter limits and hooks, warning filters, the contents of other modules, and the library's own tables of coins and networks.",
 ["inputs", "configurations"], "all operations, accepted and refused, all forms of their arguments",
 "Tests look at results; nothing observes what a call leaves behind, and an effect may depend on the input that triggers it.",
 [B, "bip38/wif.py", "bip38/utils.py", "bip38/crypto.py", "bip38/p2pkh_address.py", "bip38/libs/base58.py", "bip38/secp256k1/point.py"],
 [("operations", B + ":BIP38"), ("conversions", "bip38/wif.py"), ("coin tables", "bip38/cryptocurrencies.py")],
 ["BIP38.*", "bip38.wif", "bip38.utils", "bip38.crypto", "P2PKHAddress", "Point, PublicKey, PrivateKey"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
