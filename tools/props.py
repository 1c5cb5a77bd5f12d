"""Generates properties.jsonl and MANIFEST.json.  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JWS, JWE, JWK = ("src/jwkest/jws.py", "src/jwkest/jwe.py",
                 "src/jwkest/jwk.py")
JWT, INIT = "src/jwkest/jwt.py", "src/jwkest/__init__.py"
ECC, ELL, EXTRA = ("src/jwkest/ecc.py", "src/jwkest/elliptic.py",
                   "src/jwkest/extra.py")
GCM, AKW, PBK = ("src/jwkest/aes_gcm.py", "src/jwkest/aes_key_wrap.py",
                 "src/jwkest/PBKDF2.py")

P = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         technique, note, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None),
        technique=technique, note=note))


ENUM = "stateless model checking: exhaustive enumeration of "
TRUST = (" Trusted: the reference JOSE implementation mc/ref.py (checked "
         "against RFC vectors in setup), pycryptodome primitives, CPython. "
         "Values outside the stated alphabets are not covered.")

prop("C01", "What was signed verifies, and tokens conform to JWS",
     "For every supported signature algorithm, every payload and every way of "
     "making a key, a compact JWS that the library signs verifies with the "
     "matching key and yields the same payload. It is a valid RFC 7515/7518 "
     "token for an independent implementation, with the algorithm, key id, "
     "type and extra protected headers that were asked for. Tokens that an "
     "independent implementation made are accepted with the payload they carry.",
     ["inputs", "configurations"],
     "all algorithms x payloads (types, lengths, encodings) x keys x key "
     "representations x header texts x what the random generator returns",
     "the tests sign a handful of payloads per algorithm and verify them with "
     "the same code, so a mistake that signing and verification share, or one "
     "that needs a key coordinate, nonce or length of a special form, is "
     "invisible to them",
     [JWS, JWT, JWK, ECC, INIT],
     [("JWS.sign_compact / verify_compact(_verbose)", JWS),
      ("SIGNER_ALGS", JWS), ("JWT.pack / unpack", JWT)],
     ["return value of verify_compact", "octets of the token"],
     ENUM + "algorithm/key-form/payload/header/RNG choices on the real code "
     "against a reference JWS",
     "All combinations within the bounds (every payload length 0..199, every "
     "HMAC key length 1..160, all key forms, EC keys with short coordinates, "
     "scripted random numbers)." + TRUST)

prop("C02", "A modified JWS never verifies",
     "Whenever verification returns a payload, the signature in the token is "
     "valid, under one of the keys it was given, for exactly the header and "
     "payload in the token. No change to any part of a signed token, no "
     "recombination of parts, no missing, extra, truncated or extended part and "
     "no signature with out-of-range values is accepted.",
     ["inputs"],
     "all single-bit and single-character modifications, truncations, "
     "splices of tokens, part-count variations and forged signatures",
     "the tests contain one or two tampered tokens; acceptance of a modified "
     "token is a statement about all tokens that were never signed",
     [JWS, JWT, ECC, INIT],
     [("Signer.verify per algorithm", JWS), ("JWS.verify_compact", JWS),
      ("b64d", INIT), ("NISTEllipticCurve.verify", ECC)],
     ["verify_compact outcome (payload or exception)"],
     ENUM + "an attacker's modifications of tokens against the reference "
     "verdict",
     "Every octet and bit of signatures, headers and payloads of tokens for "
     "all 12 algorithms; all splices of a token pool." + TRUST)

prop("C03", "Unsigned tokens pass only when the caller allows them",
     "Unless the caller explicitly allows unsigned tokens, verification "
     "rejects every token whose header names no algorithm or the algorithm "
     "none in whatever spelling, and every token without a valid signature. "
     "If the caller does allow them, only tokens that say they are unsigned "
     "profit from it. Signing never yields an unsigned token when a signature "
     "algorithm was requested.",
     ["inputs", "configurations"],
     "all spellings and types of the alg header x signature parts x key "
     "lists x ways to make the verifier x APIs",
     "tests use alg=none in one spelling on one API",
     [JWS, JWT],
     [("JWS.verify_compact_verbose allow_none", JWS),
      ("JWS.verify_json", JWS), ("JWS.alg_keys / _pick_alg", JWS)],
     ["verify_* outcome", "token produced by sign_*"],
     ENUM + "unsigned-token variants x verifier configurations",
     "28 alg headers x 5 signature parts x 5 key lists x allow_none x 5 "
     "instance histories x 4 APIs x sigalg." + TRUST)

prop("C04", "The algorithm cannot be switched by the token",
     "When the caller fixes the algorithm - as an argument to verification, "
     "when making the verifier of a compact token, or as the alg of the key - "
     "only tokens signed with that algorithm verify. A key is never used with an algorithm of "
     "another key type, so that no octets of a public key, in any "
     "representation, can serve as the secret of a MAC. Unknown algorithms "
     "are always rejected.",
     ["inputs", "configurations"],
     "all ordered pairs (algorithm expected, algorithm in the token) x pin "
     "mechanism x API, and all encodings of public keys used as MAC secrets",
     "tests pin at most one algorithm pair; algorithm confusion is a property "
     "of all pairs",
     [JWS, JWK],
     [("verify_compact_verbose sigalg / self['alg']", JWS),
      ("JWx.pick_keys", JWS), ("SIGNER_ALGS", JWS)],
     ["verify_* outcome"],
     ENUM + "algorithm pairs x pinning mechanisms x APIs",
     "All pairs of 12 algorithms (and unknown names) with really valid "
     "signatures." + TRUST)

prop("C05", "The right key is used, and only keys fit for the purpose",
     "Signing, verification, encryption and decryption use a key only if its "
     "type (and curve) fits the algorithm, its use (except for verification) "
     "and alg members, where present, allow the operation, and its key id "
     "matches the key id that is asked for. If no key qualifies the operation fails; if one does, it is "
     "found wherever it is in the list, and a produced token names the key id "
     "of the key that was actually used.",
     ["inputs", "configurations"],
     "all key sets of up to three keys over type, use, alg, kid and curve "
     "variants, in every order, x key id asked for x operation",
     "tests use key sets with one obvious candidate",
     [JWS, JWE, JWK],
     [("JWx.pick_keys", JWS), ("JWS.alg_keys", JWS),
      ("JWE.encrypt / decrypt key selection", JWE)],
     ["outcome of the operation", "kid header", "which key opens the token"],
     ENUM + "key sets against a reference selection model",
     "All lists of up to 3 keys from the variant alphabet for each "
     "operation." + TRUST)

prop("C06", "JSON-serialized JWS: every signature must verify",
     "A JWS in general or flattened JSON serialization verifies only if it "
     "has at least one signature and every one of its signatures is valid for "
     "the common payload. What sign_json produces verifies and is valid for "
     "an independent implementation, with every protected and unprotected "
     "header that was asked for.",
     ["inputs", "configurations"],
     "all combinations of up to three signature entries, each valid, broken in "
     "one of several ways, or malformed, in every order",
     "tests have one document with two good signatures and few broken ones",
     [JWS],
     [("JWS.sign_json", JWS), ("JWS.verify_json", JWS)],
     ["verify_json outcome", "the JSON document"],
     ENUM + "signature-entry combinations against a reference verdict",
     "Up to 3 entries from the alphabet of entry conditions." + TRUST)

prop("C07", "With caller-supplied keys nothing in the token supplies keys",
     "When the caller gives verification or decryption keys, keys or key "
     "locations in the token's headers (jwk, jku, x5u, x5c) are never used and "
     "nothing is fetched from the network. A token signed by the attacker's "
     "own key that it carries or points to is rejected.",
     ["inputs", "configurations"],
     "all header members that can carry or point to a key x APIs x key "
     "lists x verifier histories, with every network access recorded",
     "tests only exercise the honest use of header keys",
     [JWS, JWE, JWK],
     [("JWx._get_keys", JWS), ("JWS.verify_compact_verbose", JWS),
      ("JWE.decrypt", JWE)],
     ["verify/decrypt outcome", "recorded socket connections"],
     ENUM + "attacker headers x APIs with a recording network stand-in",
     "Attacker's RSA, EC and oct keys in each header member and place." + TRUST)

prop("C08", "Using an object again does not change what it accepts",
     "Verifier, signer and key objects can be used any number of times: after "
     "any history of operations - successful, failing or abandoned - every "
     "operation gives the result it gives on its own, and in particular "
     "nothing is accepted that a fresh object with the same settings rejects. "
     "Arguments the caller passes are left as they were. (The message of a JWS "
     "object is the payload it verified last.)",
     ["histories"],
     "all sequences up to the depth bound of sign, verify, JSON, encrypt and "
     "decrypt operations on shared objects",
     "tests make a fresh object for nearly every operation",
     [JWS, JWE, JWK],
     [("JWx._dict, JWS.jwt, JWS.key", JWS), ("JWE._dict", JWE),
      ("Key attributes", JWK)],
     ["result of each operation", "caller's key lists, dicts and keys"],
     ENUM + "operation histories on shared objects, compared with fresh "
     "objects",
     "All histories up to depth 3 (quick) / 4 (thorough) over the operation "
     "alphabet." + TRUST,
     state=[("JWx._dict", "settings and leftovers of an instance", JWS)])

prop("C09", "Critical header extensions are not ignored",
     "A token with a crit header is rejected, since the library implements no "
     "extension: verification of compact and JSON serializations and "
     "decryption with every algorithm refuse it whatever its value and even "
     "though the signature or ciphertext is valid.",
     ["inputs"],
     "all crit values (lists, empty, wrong types, known names) x algorithms x "
     "serializations x header places",
     "no test has a crit header",
     [JWS, JWE],
     [("JWx.check_crit", JWS)],
     ["verify/decrypt outcome"],
     ENUM + "crit values x token kinds",
     "All JWS and JWE algorithms, compact, general and flattened." + TRUST)

prop("C10", "What was encrypted decrypts to the same octets",
     "For every supported key management and content encryption algorithm, "
     "every plaintext, with or without compression, and every key form, a JWE "
     "that the library makes is decrypted by it with the matching private key "
     "to exactly the plaintext. (From a symmetric key the key-wrapping key is "
     "derived as OpenID Connect Core 10.2 says.)",
     ["inputs", "configurations"],
     "all alg x enc x zip x key forms x plaintext lengths and types x random "
     "values with leading zeros",
     "tests cover a few alg/enc pairs with one ASCII plaintext and whatever "
     "random numbers happen to come up",
     [JWE, EXTRA, GCM, AKW],
     [("JWE.encrypt / decrypt", JWE), ("JWe._generate_key_and_iv", JWE)],
     ["decrypted octets"],
     ENUM + "alg/enc/zip/key-form/plaintext/RNG choices",
     "All 60 alg/enc pairs with and without zip; all lengths around block "
     "boundaries; scripted random numbers." + TRUST)

prop("C11", "A modified JWE is never decrypted",
     "Decryption returns a plaintext only for a token whose five parts are "
     "all as they were made: any change of header, encrypted key, IV, "
     "ciphertext or tag, any truncation, extension, additional or missing "
     "part, and any recombination of parts of different tokens makes it fail "
     "with an exception, never a wrong plaintext.",
     ["inputs"],
     "all bit flips of every part, all truncations, extensions, part counts "
     "and splices of tokens for the same key",
     "tests tamper with at most one octet of one token",
     [JWE, EXTRA, GCM, AKW],
     [("JWe._decrypt", JWE), ("AES_GCM.decrypt", GCM),
      ("aes_cbc_hmac_decrypt", EXTRA), ("aes_unwrap_key", AKW)],
     ["decrypt outcome"],
     ENUM + "an attacker's modifications of tokens",
     "Every bit of every part for each enc and key management family."
     + TRUST)

prop("C12", "Decryption finds the key, and fails alike for wrong keys",
     "With several keys, decryption succeeds exactly if one of them is the "
     "recipient's, wherever it is in the list, and otherwise fails with the "
     "library's own decryption error. When the caller names the key management "
     "algorithm, tokens with another one are rejected; an RSA1_5 token with a "
     "malformed encrypted key fails in the same way as one with a wrong tag.",
     ["inputs", "configurations"],
     "all key lists of up to three keys x algorithms x pinned algorithm, and "
     "all malformations of the encrypted key",
     "tests decrypt with a single right key",
     [JWE],
     [("JWE.decrypt key loop", JWE), ("RSAEncrypter.decrypt", JWE)],
     ["decrypt outcome and exception type"],
     ENUM + "key lists, pins and encrypted-key malformations",
     "All lists up to 3 over right/wrong keys of each type." + TRUST)

prop("C13", "JWE conforms to RFC 7516/7518 in both directions",
     "Every token the library makes can be decrypted by an independent "
     "implementation of RFC 7516 and 7518, and every valid token that an "
     "independent implementation makes - with any legal combination of "
     "optional headers - is decrypted by the library to the right plaintext. "
     "Algorithms, encryption methods and compressions that are not supported, "
     "and keys or IVs of a wrong length, are refused; nothing else is used "
     "instead. Except with ECDH-ES, a CEK or IV that the caller gives is used "
     "as it is. "
     "(The key-wrapping key is derived from a symmetric key as OpenID Connect "
     "Core 10.2 says.)",
     ["inputs", "configurations"],
     "all alg x enc x zip x apu/apv x header orders x curves x CEK/IV/"
     "ephemeral values including leading zeros",
     "round-trip tests cannot see a deviation both directions share, which "
     "breaks every exchange with other software",
     [JWE, EXTRA, GCM, AKW],
     [("JWE_RSA, JWE_SYM, JWE_EC", JWE), ("ecdh_derive_key", EXTRA),
      ("compress / decompress", JWE)],
     ["the token's parts", "decrypted octets"],
     ENUM + "token configurations, differential against a reference JWE",
     "All alg/enc pairs, both directions." + TRUST)

prop("C14", "Fresh, unpredictable keys, IVs and nonces for every token",
     "Every encryption uses a content encryption key, IV and ephemeral key, and "
     "every EC signature a nonce, that have not been used before, of the full "
     "length and from the operating system's secure random generator - never "
     "from a seedable generator, a constant or an earlier operation - whatever "
     "was done before with the same objects.",
     ["histories", "inputs"],
     "all histories of up to four encryptions/signatures over shared and fresh "
     "objects, for all algorithms",
     "no test compares two tokens, and predictability does not show in the "
     "result of a single operation",
     [JWE, ECC, JWS],
     [("JWe._generate_key_and_iv", JWE), ("NISTEllipticCurve.key_pair", ECC),
      ("NISTEllipticCurve._sign_loop", ECC)],
     ["CEK, IV, epk, ECDSA r recovered by a reference implementation",
      "octets drawn from the system generator"],
     ENUM + "operation histories with an instrumented random source",
     "Values recovered from the tokens are compared across the history and "
     "across seeded generators." + TRUST)

prop("C15", "Invalid ephemeral keys are refused in ECDH-ES",
     "Decryption with ECDH-ES in any mode fails for every token whose "
     "ephemeral public key is missing, malformed, not a point of the "
     "recipient's curve, the wrong curve or out of range, even if it was "
     "encrypted for the very secret that the curve formulas would give for "
     "that point, so that the outcome tells nothing about the private key.",
     ["inputs"],
     "all malformations of the epk header, including points of small order on "
     "twists and other curves, x modes x curves",
     "no test has an invalid epk, and the invalid-curve attack needs one "
     "made for the purpose",
     [JWE, JWK, ECC, EXTRA],
     [("JWE_EC.dec_setup", JWE), ("ECKey.deserialize on_curve check", JWK)],
     ["decrypt outcome for tokens that would decrypt if the point were used"],
     ENUM + "epk malformations, with tokens encrypted for the secret the "
     "invalid point would give",
     "All malformations x 3 curves x 4 algorithms." + TRUST)

prop("C20", "AES key wrap is RFC 3394",
     "Wrapping yields the RFC 3394 result for every key-encryption key size and "
     "every key of whole 64-bit blocks; unwrapping returns exactly what was "
     "wrapped, and fails for every other input, including every modified, "
     "truncated or extended wrapping.",
     ["inputs"],
     "all key sizes x data lengths x bit flips x lengths",
     "tests contain the RFC vectors only",
     [AKW], [("aes_wrap_key / aes_unwrap_key", AKW)],
     ["returned octets or exception"],
     ENUM + "inputs against an index-based reference",
     "3 KEK sizes x data lengths 0..72 (thorough: 0..136), all bit flips."
     + TRUST)

prop("C21", "AES-GCM and AES-CBC-HMAC are the standard algorithms",
     "The content encryption functions give, for every key size, plaintext, "
     "additional data and IV, exactly the ciphertext and tag of SP 800-38D "
     "and RFC 7518 section 5.2, and decrypt accepts exactly those. A cipher "
     "object refuses to encrypt twice in a row with the same IV.",
     ["inputs", "histories"],
     "all plaintext x additional-data lengths around block boundaries x key "
     "sizes x IVs x tamperings, and histories of uses of one cipher object",
     "tests have one or two vectors per mode",
     [GCM, EXTRA],
     [("AES_GCM.encrypt / decrypt", GCM),
      ("aes_cbc_hmac_encrypt / decrypt", EXTRA)],
     ["ciphertext and tag", "decrypt outcome"],
     ENUM + "lengths and tamperings against pycryptodome's native modes",
     "All plaintext lengths 0..67 x aad lengths 0..35 (bounds per tier)."
     + TRUST)

prop("C22", "Elliptic curve arithmetic and ECDSA are right everywhere",
     "Point addition, doubling, scalar multiplication, the combined "
     "multiply-add, compression and key pairs agree with the group law for all "
     "points and scalars, including infinity, inverses and equal points. ECDSA "
     "signatures verify exactly if they satisfy the equation of the standard, "
     "for every nonce, hash and key, and have a fixed length. This holds on "
     "all the curves the library offers, which are the standard ones.",
     ["inputs"],
     "all points, scalars and signatures on small curves; boundary scalars, "
     "hashes, nonces and (r,s) values on the NIST curves",
     "the exceptional cases have negligible probability on the NIST curves "
     "and never occur in a test",
     [ECC, ELL, "src/jwkest/curves.py"],
     [("elliptic.mulp, muladdp, add/double", ELL),
      ("NISTEllipticCurve.sign / verify", ECC)],
     ["returned points, booleans and octets"],
     ENUM + "all points and scalars of small curves, plus boundary values on "
     "the real ones, against textbook affine arithmetic",
     "Complete groups of several small prime-order curves." + TRUST)

prop("C23", "The codecs are exact inverses and refuse everything else",
     "base64url encoding and decoding of octets and integers are inverse to "
     "each other for all values and equal to RFC 4648/7515/7518; decoding "
     "fails for all text that is not base64url. Comparing octet strings in "
     "constant time equals comparing them.",
     ["inputs"],
     "all octet strings up to length 2 (patterns beyond), all strings up to "
     "length 3 over a boundary alphabet, all integers around powers of 256",
     "tests have one value each",
     [INIT, JWT], [("b64e/b64d, long_to_base64, base64url_to_long", INIT)],
     ["returned values or exception"],
     ENUM + "short inputs against a bit-level reference",
     "Complete up to the length bounds." + TRUST)

prop("C24", "Key derivation follows the standards",
     "The ECDH-ES key derivation gives the Concat KDF result of RFC 7518 "
     "section 4.6 for all party information, algorithms and key lengths, both "
     "parties derive the same key, and at_hash-style left hashes and derived "
     "symmetric keys are the left-most octets of the right digest.",
     ["inputs"],
     "all curves x key lengths x apu/apv lengths x shared secrets with "
     "leading zeros",
     "tests have the one RFC vector",
     [EXTRA, JWS, JWK, ECC],
     [("concat_sha256, ecdh_derive_key", EXTRA), ("left_hash", JWS),
      ("SYMKey.encryption_key", JWK)],
     ["derived octets"],
     ENUM + "parameters against a reference KDF",
     "All lengths in the bounds." + TRUST)

prop("C30", "Keys survive being written as JWK and read back",
     "Reading a JWK that the library wrote, in any of the ways to write and "
     "read one, gives a key that is equal, works for the same operations and "
     "has the same kid, use, alg and certificate members; the JWK conforms to RFC 7517/7518, and "
     "every conforming JWK made elsewhere is read as the key it denotes. A "
     "JWK that lacks a necessary value, or whose public values are not those "
     "of a key, never gives a usable key.",
     ["inputs", "histories"],
     "all key types and sizes x coordinates with leading zeros x metadata x "
     "ways to serialize and load, and chains of them",
     "tests round-trip one key per type",
     [JWK],
     [("Key.serialize / deserialize per type", JWK), ("keyrep", JWK),
      ("KEYS.load_jwks / dump_jwks", JWK)],
     ["numbers in the JWK", "sign/verify, encrypt/decrypt with the key read"],
     ENUM + "serialize/load chains over a key alphabet",
     "All chains up to depth 3 over all load and store operations." + TRUST)

prop("C31", "Private key material is not written where public keys are",
     "Serializing a key without asking for the private part, dumping a key "
     "set, making a public copy, putting a key in a token header, computing "
     "thumbprints and the key-exporting scripts never emit the private "
     "numbers of an asymmetric key, for any history of the key object.",
     ["histories", "inputs"],
     "all ways to make a private key x all operations before x all ways to "
     "publish",
     "tests check one export of one key",
     [JWK, JWS, JWE, "script/jwk_create.py", "script/jwk_export.py"],
     [("Key.serialize(private=False)", JWK), ("make_public_copy", JWK),
      ("KEYS.dump_jwks", JWK)],
     ["emitted text searched for the private numbers in every encoding"],
     ENUM + "key-making and publishing histories with a taint search",
     "All histories up to the depth bound." + TRUST)

prop("C32", "Thumbprints are those of RFC 7638",
     "The thumbprint of a key is the RFC 7638 value for its type, and thus the "
     "same for the private and public form, any representation, and any "
     "metadata; different keys have different thumbprints.",
     ["inputs", "histories"],
     "all key types x forms x metadata x hash functions x preceding "
     "operations",
     "tests have the RFC's RSA vector and a locked-in EC value",
     [JWK], [("Key.thumbprint, required members", JWK), ("add_kid", JWK)],
     ["thumbprint octets"],
     ENUM + "keys and histories against a reference thumbprint",
     "Known finding: EC thumbprints omit kty (locked in by an existing test)."
     + TRUST)

prop("C33", "Key equality is an equivalence, consistent with hashing",
     "Two key objects are equal exactly if they are the same public key with "
     "the same metadata (kid, use, alg and, for RSA keys, certificate members as given), "
     "whatever way they were made; equality is reflexive, "
     "symmetric and transitive and equal keys have equal hashes, and comparing "
     "or hashing a key does not change it. (key_eq and rsa_eq compare raw "
     "keys in the same way.)",
     ["inputs", "histories"],
     "all pairs and triples of a set of keys in all forms",
     "tests compare two pairs of keys",
     [JWK], [("Key.__eq__, __hash__", JWK), ("key_eq, rsa_eq", JWK)],
     ["== and hash()"],
     ENUM + "all pairs of keys and forms against the model",
     "Complete pairs table of the key alphabet." + TRUST)

prop("C34", "Key sets hold exactly the keys that were loaded into them",
     "After any sequence of loads, adds and failures a key set contains the "
     "keys of the successful operations in order and nothing of the failed "
     "ones, and its queries by type, key id and count agree with that list. "
     "Loading from a URL either adds the served keys or raises, whatever the "
     "server does. A verifier or encrypter whose caller says that its keys are "
     "at a URL uses the keys served there and no others.",
     ["histories", "fault_sequences"],
     "all sequences of load operations up to the depth bound x malformed "
     "documents x server faults (status, truncation, reset, redirects)",
     "tests load one good document",
     [JWK],
     [("KEYS.load_dict / load_jwks / load_from_url / wrap_add / append", JWK)],
     ["keys(), kids(), by_kid(), [kty], len, key_types, as_dict, dump_jwks"],
     "breadth-first model checking of the key set against a list model, and "
     "enumeration of server faults on a loopback server",
     "All histories up to depth 3/4 over the operation alphabet." + TRUST,
     state=[("KEYS._keys", "the keys held", JWK)])

prop("C35", "Certificates yield their key, and thumbprints must match",
     "An RSA key given as certificate chain (x5c) has the public key of the "
     "first certificate, from whatever certificate and way of loading. A JWK "
     "whose x5t differs from the SHA-1 of the certificate in any bit is "
     "refused.",
     ["inputs"],
     "all certificates in the pool x loaders x every bit of x5t and every "
     "truncation",
     "tests use one certificate with the right and one wrong thumbprint",
     [JWK], [("der2rsa, der_cert2rsa, pem_cert2rsa", JWK),
             ("RSAKey.deserialize x5t check", JWK)],
     ["n and e of the key", "exception"],
     ENUM + "certificates, loaders and thumbprint modifications",
     "All 160 bits of the thumbprint." + TRUST)

prop("C40", "Packing and unpacking a JWT are inverse",
     "Unpacking what was packed gives the same headers and parts for every "
     "payload and header, and the encoded parts that signatures are computed "
     "over are the octets received, not a re-encoding. Text that is not a "
     "dot-separated sequence of base64url parts, the first of them a UTF-8 "
     "JSON header, is rejected with a ValueError or the library's own "
     "exception.",
     ["inputs"],
     "all part counts, payload types, header texts, paddings and malformed "
     "texts up to a length",
     "tests pack one or two tokens",
     [JWT, INIT], [("JWT.pack / unpack / payload", JWT)],
     ["headers, part, b64part, payload()"],
     ENUM + "tokens and malformed texts",
     "All strings up to the length bound over the boundary alphabet." + TRUST)

prop("C41", "Tokens are classified totally and exclusively",
     "For every text, asking whether it is a JWS or a JWE gives an answer "
     "rather than crashing the classifier, never both, and the answer is yes "
     "for every token the library makes or verifies respectively decrypts.",
     ["inputs"],
     "all header shapes x part counts x encodings, and all tokens the "
     "library makes",
     "tests classify one token of each kind",
     [JWS, JWE], [("JWS.is_jws, jws.factory", JWS),
                  ("JWEnc.is_jwe, jwe.factory", JWE)],
     ["factory() results"],
     ENUM + "header shapes x part counts",
     "28 header shapes x 0..7 parts x serializations." + TRUST)

prop("C50", "Threads sharing keys do not disturb each other",
     "Threads that sign, verify, encrypt, decrypt, hash, serialize or export "
     "with the same key objects and key sets, each with objects of their own "
     "otherwise, get the results they get alone, under every interleaving. "
     "Loading keys into a shared key set takes effect for other threads "
     "completely or not at all, and no key that another thread adds is lost.",
     ["schedules"],
     "all interleavings at source-line granularity up to the preemption bound "
     "of two threads doing every pair of operations on shared keys",
     "the tests are single threaded; a data race needs one particular "
     "interleaving",
     [JWS, JWE, JWK, ECC, GCM],
     [("module-level signers and curves", JWS), ("Key attributes", JWK)],
     ["result of every thread's operation", "state of the shared key after"],
     "stateless model checking of thread interleavings with a preemption "
     "bound, on the real code under a controlled scheduler",
     "Two threads, all operation pairs, preemption bound 1 (quick) / 2 "
     "(thorough), switch points at Python source lines of jwkest. CPython's "
     "own atomicity within a line is assumed." + TRUST,
     state=[("SIGNER_ALGS", "shared signer objects", JWS),
            ("P256, P384, P521", "shared curve objects", ECC)])

prop("C51", "The command line tools do what they say",
     "The scripts generate keys, encrypt, decrypt, create, export and show "
     "tokens consistently with the library: what jwenc/jwkutil encrypts or "
     "signs, jwdecrypt/jwkutil opens, signing without naming an algorithm does "
     "not give an unsigned token, exported JWKs are the public keys, and "
     "failures give a non-zero exit status and no forged success.",
     ["inputs", "configurations"],
     "all combinations of script options and inputs over small alphabets",
     "the scripts have no tests",
     ["script/jwkutil.py", "script/jwenc.py", "script/jwdecrypt.py",
      "script/gen_symkey.py", "script/jwk_create.py",
      "script/jwk_export.py", "script/peek.py"],
     [("script main functions", "script/")],
     ["stdout, exit status, files written in a scratch directory"],
     ENUM + "option combinations of the scripts as processes",
     "All option combinations in the alphabet." + TRUST)

prop("C52", "Decisions do not depend on how Python was started",
     "Which tokens and keys are accepted, and the payloads, keys and values "
     "obtained from them, are the same with assertions stripped (-O, -OO), "
     "under every hash seed and whatever the locale.",
     ["configurations", "inputs"],
     "all flags x hash seeds x locales x a battery of valid, modified, "
     "unsigned and mismatching tokens and keys",
     "the tests run in one interpreter configuration; a check made with "
     "assert is gone in another",
     [JWS, JWE, JWK, JWT, ECC, ELL, EXTRA, GCM, AKW],
     [("every check that decides to reject", "src/jwkest/")],
     ["result or rejection of each case in an interpreter so started"],
     ENUM + "interpreter configurations x cases as processes, against "
     "verdicts of the reference implementation",
     "652 cases x all configurations listed." + TRUST)

prop("C60", "PBKDF2 is RFC 8018",
     "The derived key equals PBKDF2 of RFC 8018 for every passphrase, salt, "
     "iteration count, length and digest, however the octets are read in "
     "pieces; crypt() verifies against its own output and only that.",
     ["inputs", "histories"],
     "all read-size sequences up to the depth bound x inputs",
     "the module has no tests",
     [PBK], [("PBKDF2.read / hexread / crypt", PBK)],
     ["octets read"],
     ENUM + "read histories against hashlib.pbkdf2_hmac",
     "All sequences of 3 reads from 12 sizes, octets or hex, and of 5 (6) "
     "reads from 4 sizes." + TRUST)

prop("C70", "No timing side channels in secret comparisons",
     "The time verification, unwrapping and decryption take does not reveal "
     "how much of a secret value was right.",
     ["inputs"],
     "all pairs of secret and guess",
     "execution time is not a functional observation",
     [INIT, EXTRA, GCM, AKW],
     [("constant_time_compare", INIT)], ["duration"],
     None,
     "Execution time on CPython is not part of any state this technique "
     "enumerates; a model of it would not be bound to the implementation.")


def main():
    have = {f[:-3].upper() for f in os.listdir(
        os.path.join(ROOT, "mc", "checks")) if f.startswith("c")}
    checks, na = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = dict(p)
            t, n = q.pop("technique"), q.pop("note")
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
            if t is None:
                na.append(dict(property=p["id"], reason=n))
            elif p["id"] in have:
                checks.append(dict(
                    property=p["id"],
                    quick_cmd="./check.sh %s quick" % p["id"],
                    thorough_cmd="./check.sh %s thorough" % p["id"],
                    evidence_file="evidence/%s.json" % p["id"],
                    technique=t, level="model_checking", level_note=n))
            else:
                na.append(dict(property=p["id"],
                               reason="check not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
             not_applicable=na,
             notes="No hooks in /repo: everything is observed through the "
             "public API; randomness, network and thread switches are "
             "controlled from outside (os.urandom, socket, sys.settrace).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "checks", [x["property"] for x in na])


if __name__ == "__main__":
    main()
