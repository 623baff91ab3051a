#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Signature verification accepts exactly the valid ECDSA signatures",
 "For every message, signature and valid public key, verification returns true if and only if r and s are both nonzero and the x-coordinate of (m/s)G + (r/s)Q, reduced modulo the group order n, equals r; in particular signatures with a high s are accepted, and the case where the x-coordinate itself is n or more is accepted. The verdict is the same with the built-in context and with a heap-built one.",
 ["inputs"], "all (message, r, s, public key), including zero components, m = 0, a result at infinity, r + n below the field prime, keys that are small multiples of +-G, non-unique key representations",
 "The tests verify a handful of random honest signatures and one fixed Wycheproof file; the second comparison (r + n), results at infinity, coincidences inside the double-scalar multiplication and forged near-misses are not reachable by random inputs.",
 ["src/lib.rs", "core/src/ecdsa.rs", "core/src/ecmult.rs"],
 [("zero checks, u1/u2 derivation, comparison of x with r and r+n", "core/src/ecdsa.rs verify_raw"), ("double-scalar multiplication", "core/src/ecmult.rs ecmult"), ("projective x comparison", "core/src/group.rs eq_x_var")],
 observe=["verify, verify_with_context return value"])

prop("C02", "Signing is deterministic RFC 6979 and always yields a valid low-s signature",
 "For every secret key and message, signing returns exactly the ECDSA signature given by the RFC 6979 nonce (HMAC-SHA256 over the key and the message reduced modulo n), with s negated when needed so that s <= (n-1)/2, and a recovery id that matches that signature. Nonce candidates that are zero or not below n are never used: the next RFC 6979 candidate is taken. Signing with a caller-supplied nonce follows the same equation, normalises s the same way, and fails when s would be zero.",
 ["inputs"], "all secret keys in [1, n-1], all 32-byte messages (also >= n), all nonces in [1, n-1]",
 "Tests sign a few constant messages under random keys and only check that the result verifies; nonce bytes, nonce rejection, the s = (n-1)/2 boundary and s = 0 are never observed.",
 ["src/lib.rs", "core/src/ecdsa.rs", "core/src/scalar.rs"],
 [("HMAC-DRBG nonce loop", "src/lib.rs sign_with_context"), ("signature equation, low-s, recovery id", "core/src/ecdsa.rs sign_raw"), ("high test", "core/src/scalar.rs is_high")],
 observe=["sign, sign_with_context, ECMultGenContext::sign_raw results"])

prop("C03", "Public-key recovery is exact",
 "Recovery from (message, signature, recovery id) returns exactly the key r^-1(sR - mG), where R is the curve point whose x-coordinate is r, or r + n when bit 1 of the id is set, and whose y-parity is bit 0; it fails exactly when r or s is zero, when no such point exists (including r + n not below the field prime), or when the result is the point at infinity. Every recovered key verifies the same signature, and the id returned by signing always recovers the signer's key.",
 ["inputs"], "all (message, r, s, id in 0..3)",
 "Tests recover a few honest signatures with ids 0/1; ids 2/3, out-of-range x, non-residue x and infinite results never occur by chance.",
 ["src/lib.rs", "core/src/ecdsa.rs", "core/src/group.rs"],
 [("x reconstruction and range check, u1/u2", "core/src/ecdsa.rs recover_raw"), ("decompression", "core/src/group.rs set_xo_var")],
 observe=["recover, recover_with_context results"])

prop("C04", "Public-key derivation computes d*G",
 "For every secret key d in [1, n-1] the derived public key is the curve point d*G (never the point at infinity, never off the curve), with the built-in context and with a heap-built one alike; distinct secret keys give distinct public keys and negating the secret negates the point.",
 ["inputs"], "all secret keys, including tiny, near-n and bit-pattern keys and keys that make the blinded scalar degenerate",
 "Two fixed keys and a few random ones are tested; a defect in one table window, one carry or one degenerate addition needs particular keys.",
 ["src/lib.rs", "core/src/ecmult.rs", "core/src/group.rs"],
 [("comb multiplication with blinding", "core/src/ecmult.rs ECMultGenContext::ecmult_gen"), ("complete addition", "core/src/group.rs add_ge_in_place"), ("tables", "build.rs, gen/genmult")],
 observe=["PublicKey::from_secret_key(_with_context)"])

prop("C05", "Public-key parsing admits exactly the valid encodings and round-trips",
 "Public-key parsing accepts exactly: 65 bytes tagged 04 (or 06/07 with matching y-parity), 64 raw bytes, or 33 bytes tagged 02/03, whose coordinates are below the field prime and name a point on the curve, and the parsed key is that point; slices of any other length, or not matching a requested format, fail with the input-length error and everything else with the invalid-key error. Serialising gives the canonical 65-byte or 33-byte encoding whatever way the key was obtained, re-parsing it gives an equal key, and two keys compare equal exactly when their encodings are equal. Conversion from a raw affine point accepts exactly finite points on the curve.",
 ["inputs"], "all byte strings of length 0..80, every tag, all requested formats; keys from parsing, derivation, recovery, tweaking, combining",
 "Tests parse only honest encodings; coordinates >= p, twist points, hybrid parity mismatches and format/length mismatches are not covered.",
 ["src/lib.rs", "core/src/field.rs", "core/src/group.rs"],
 [("tag, range and curve checks", "src/lib.rs PublicKey::parse, parse_compressed, parse_slice"), ("field range check", "core/src/field.rs set_b32"), ("square root and curve equation", "core/src/group.rs set_xo_var, is_valid_var")],
 observe=["PublicKey::parse*, serialize*, TryFrom<Affine>, =="])

prop("C06", "Secret keys are admitted exactly when in [1, n-1] and represented faithfully",
 "Every way of obtaining a secret key from outside (32-byte array, slice, scalar conversion, random generation) yields only keys in [1, n-1]: bytes encoding 0 or a value >= n are refused, wrong lengths fail with the input-length error, and valid bytes give exactly that integer. Random generation returns the first admissible 32-byte block drawn from the generator, unchanged. Serialisation and lower-hex formatting both give the 32-byte big-endian value, the default key is 1, and inversion gives the modular inverse.",
 ["inputs", "histories"], "all 32-byte strings, slices of any length, all generator output streams (including long runs of inadmissible blocks)",
 "Tests use a few fixed admissible keys; inadmissible values, boundary values around n, hostile random streams and hex output are not checked.",
 ["src/lib.rs", "core/src/scalar.rs"],
 [("range and zero checks", "src/lib.rs SecretKey::parse, TryFrom<Scalar>, random"), ("overflow test and limb packing", "core/src/scalar.rs set_b32, check_overflow, fill_b32, LowerHex")],
 observe=["SecretKey constructors, serialize, {:x}, inv"])

prop("C07", "Fixed-size signature, message and recovery-id encodings are exact",
 "Standard 64-byte signature parsing accepts exactly r, s < n and round-trips with serialisation; overflowing parsing accepts everything and reduces r and s modulo n; message parsing reduces modulo n; slices of other lengths fail with the input-length error. Low-s normalisation maps s to min(s, n-s), leaves r alone, is idempotent and does not change whether the signature verifies. Recovery ids parse exactly for 0..3, and in RPC form exactly for 27..30, and serialise back to 0..3.",
 ["inputs"], "all 64-byte and 32-byte strings, slices of any length, all 256 recovery-id bytes, s around 0, n/2 and n",
 "Tests parse only honest signatures; values at and above n, the exact n/2 boundary and illegal ids are never exercised.",
 ["src/lib.rs", "core/src/scalar.rs"],
 [("parse_standard, parse_overflowing, serialize, normalize_s", "src/lib.rs Signature"), ("Message::parse, RecoveryId::parse, parse_rpc", "src/lib.rs"), ("is_high, negation, reduction", "core/src/scalar.rs")],
 observe=["Signature, Message, RecoveryId constructors and serialisers"])

prop("C08", "Strict DER signature codec is exact and canonical",
 "Strict DER parsing accepts a byte string only if it is exactly one DER SEQUENCE of two INTEGERs in minimal encoding with nothing missing or left over; every such string whose integers lie in [0, n) is accepted and yields exactly those integers, and an integer outside [0, n) is never accepted as a nonzero value. DER serialisation of any signature is the canonical encoding (at most 72 bytes), and parsing it gives the signature back.",
 ["inputs"], "all byte strings; all (r, s) in [0, n)^2 including 0 and every byte length",
 "One DER round-trip of an honest signature and the Wycheproof file (which only checks accept/reject after verification) are tested; oversized integers hiding a second integer, zero components and short integers are not.",
 ["src/lib.rs", "core/src/der.rs"],
 [("sequence and length handling", "src/lib.rs parse_der; core/src/der.rs read_len"), ("integer decoding", "core/src/der.rs read_integer"), ("encoding", "src/lib.rs serialize_der")],
 observe=["Signature::parse_der, serialize_der"])

prop("C09", "Lax DER parsing matches the historic Bitcoin parser",
 "Lax DER parsing accepts exactly the byte strings that Bitcoin Core's lax signature parser accepts (non-minimal lengths, zero padding, wrong sequence length, trailing bytes), and yields the same r and s whenever both lie in [0, n). When an integer is out of range the parsed signature has that component zero, so it never verifies. Every strictly valid encoding of an in-range signature parses laxly to the same signature.",
 ["inputs"], "all byte strings, in particular mutated and length-distorted DER",
 "Seven fixed signatures are checked for being accepted, and nothing else: neither the values nor any malformed or non-minimal form.",
 ["src/lib.rs", "core/src/der.rs"],
 [("lax sequence/length/integer readers", "core/src/der.rs read_seq_len_lax, read_len_lax, read_integer_lax"), ("entry point", "src/lib.rs parse_der_lax")],
 observe=["Signature::parse_der_lax"])

prop("C10", "ECDH shared secrets are the hash of the compressed product point",
 "For every public key Q, secret key d and digest algorithm, the shared secret is the digest of the 33-byte compressed encoding of d*Q; hence both parties of an exchange always obtain the same secret, and it equals the one of the C library for SHA-256. A wiped (zero) secret key is refused with the invalid-secret-key error.",
 ["inputs"], "all (Q, d), all digest types; Q with structured relations to G, d at recoding edge cases (even/odd, high/low, n-1, n-2, window boundaries)",
 "Two random key pairs are tested with one digest; the constant-time recoding has sign, parity, skew and -1 cases that need specific scalars.",
 ["src/lib.rs", "core/src/ecdh.rs", "core/src/ecmult.rs"],
 [("ecdh_raw", "core/src/ecdh.rs"), ("constant-time recoding and multiplication", "core/src/ecmult.rs ecmult_wnaf_const, ecmult_const")],
 observe=["SharedSecret::new(_with_context).as_ref()"])

prop("C11", "Key tweaks act correctly and consistently on secret and public keys",
 "Adding a tweak t to a secret key d gives d + t mod n and to a public key Q gives Q + t*G; multiplying gives d*t mod n and t*Q; so tweaking the secret key and deriving equals deriving and tweaking the public key. Additive tweaks fail exactly when the result would be zero or infinity, multiplicative tweaks exactly when t is zero, always with the tweak-out-of-range error and leaving the key unchanged.",
 ["inputs", "histories"], "all (d, t) and chains of tweaks, including t = n - d, t = d, t = 0 (wiped key), t = 1, n-1",
 "No existing test calls any tweak function.",
 ["src/lib.rs", "core/src/ecmult.rs", "core/src/scalar.rs"],
 [("tweak_add_assign, tweak_mul_assign", "src/lib.rs PublicKey and SecretKey"), ("double-scalar multiplication", "core/src/ecmult.rs ecmult")],
 observe=["tweak_*_assign results and the key after the call"])

prop("C12", "Combining public keys is the group sum",
 "Combining a list of public keys returns the group sum of all of them, independent of order and grouping, counting duplicates as often as they occur and cancelling opposite keys, also when an intermediate sum is infinity. It fails, with the invalid-public-key error, exactly when the list is empty or the sum is infinity.",
 ["inputs", "histories"], "all lists of keys (length 0..64) with duplicates, opposites, cancelling prefixes, equal-x and related points",
 "One fixed pair of keys is combined in the tests.",
 ["src/lib.rs", "core/src/group.rs"],
 [("combine", "src/lib.rs PublicKey::combine"), ("complete mixed addition", "core/src/group.rs add_ge_in_place")],
 observe=["PublicKey::combine"])

prop("C13", "Public-key serde round-trips and rejects invalid data",
 "Serialising a public key gives, in human-readable formats, the padded standard base64 string of its 65-byte encoding and, in binary formats, those 65 bytes; deserialising it gives an equal key. Deserialisation accepts exactly the strings (standard base64) or byte strings whose content is a valid 33-, 64- or 65-byte key encoding and reports an error, never a panic or a wrong key, for everything else.",
 ["inputs"], "all keys; all strings and byte strings as input, in a human-readable and a binary format",
 "One fixed key is round-tripped; invalid lengths, invalid points, invalid base64 and the compressed/raw forms are not tested.",
 ["src/lib.rs"],
 [("Serialize/Deserialize for PublicKey and visitors", "src/lib.rs")],
 observe=["serde_json and bincode results"])

prop("C14", "Field arithmetic is exact modulo p for every representation",
 "Every field operation (addition, negation, small multiples, multiplication, squaring, inversion, square root, comparison, zero and oddness tests, conditional move, normalisation, byte and storage conversion) computes the exact result modulo p = 2^256 - 2^32 - 977 for every representation within its documented magnitude limit, including unreduced values in [p, 2^256). Byte import reports failure exactly for values >= p, square root reports failure exactly for non-squares, and no operation overflows internally within these limits.",
 ["inputs"], "all limb representations of magnitude within the documented bounds, results at 0, p-1 and carries across all limbs",
 "No test touches field arithmetic directly; via random keys the rare carries (probability 2^-26 to 2^-220) are never reached.",
 ["core/src/field.rs"],
 [("10x26 limb arithmetic with magnitude tracking", "core/src/field.rs mul_inner, sqr_inner, normalize*, neg_in_place, set_b32, sqrt, inv")],
 state=[("limbs, magnitude, normalized", "redundant representation", "core/src/field.rs Field")],
 observe=["b32, ==, ordering and Option/bool results of curve::Field"])

prop("C15", "Scalar arithmetic is exact modulo n",
 "Every scalar operation (addition, multiplication, squaring, negation, conditional negation, inversion, bit extraction, shifting, conditional bit addition, byte conversion with overflow report, zero/one/even/high tests) on reduced scalars gives the exact reduced result modulo the group order n. The high test is true exactly for values above n/2, and byte import reports overflow exactly for values >= n and then yields the reduced value.",
 ["inputs"], "all reduced scalars, in particular limb patterns driving every carry and final-subtraction case of the 512-bit reduction",
 "Scalar arithmetic is only exercised indirectly with a few random values; rare carries and exact boundaries are unreachable that way.",
 ["core/src/scalar.rs"],
 [("schoolbook product, 512->256 reduction, overflow test", "core/src/scalar.rs mul_512, sqr_512, reduce_512, reduce, check_overflow, is_high, cond_neg_assign")],
 observe=["curve::Scalar results"])

prop("C16", "Curve group operations and scalar multiplications obey the group law",
 "Doubling, all addition variants, negation, coordinate conversion, rescaling, decompression and batch conversion of curve points return the mathematically correct point for every pair of inputs - equal, opposite, infinite, equal-y or differently scaled ones included - and report the z-ratio they promise. Every multiplication routine (a*P + b*G, constant-time a*P, constant-time a*G) returns the correct point for every scalar pair, including 0, 1, n-1 and combinations whose partial sums collide or vanish.",
 ["inputs"], "all finite points and infinity in all Jacobian scalings; all scalar pairs; P with known small or structured discrete log",
 "No test calls group operations directly; exceptional cases have negligible probability with random keys.",
 ["core/src/group.rs", "core/src/ecmult.rs"],
 [("addition/doubling formulas with exceptional cases", "core/src/group.rs"), ("wNAF recodings and Strauss loop", "core/src/ecmult.rs")],
 observe=["curve::Affine/Jacobian results converted to affine bytes"])

prop("C17", "Precomputed contexts are correct however they are built",
 "The tables compiled in at build time, tables created on first use and tables created on the heap at run time are identical and consist exactly of the promised multiples of the generator; every operation gives the same result with each. Building a context yields fully initialised, deterministic contents whatever garbage the allocator returns, and when memory cannot be allocated it ends in the standard allocation-failure handling instead of touching invalid memory.",
 ["configurations", "fault_sequences", "inputs"], "all table entries; heap pre-filled with adversarial garbage; allocation failing at each allocation made during construction",
 "Tests use only the static tables and hit a few dozen of the 17408 entries; heap contexts, lazy contexts and allocation failure are never exercised.",
 ["core/src/ecmult.rs", "build.rs", "gen/ecmult/src/lib.rs", "gen/genmult/src/lib.rs", "src/lib.rs"],
 [("new_boxed with manual initialisation (unsafe)", "core/src/ecmult.rs"), ("generated constants", "gen/*, build.rs"), ("static and lazy contexts", "src/lib.rs")],
 observe=["inspect_raw of each context, results of operations per context, exit status under allocation failure"])

prop("C18", "No safe call panics, overflows or has undefined behaviour on hostile input",
 "Feeding arbitrary bytes, slices of any length and every value the API itself can produce (except keys the caller has wiped) into the parsing, verification, recovery, signing, ECDH, tweak, combine and serde entry points always returns a value or an error: no panic, no arithmetic overflow, no out-of-bounds or uninitialised access, no other undefined behaviour, and it terminates. The outcome with run-time checks enabled equals the optimised outcome.",
 ["inputs", "histories"], "arbitrary byte strings and chains of operations feeding on one another's results",
 "Tests feed a few well-formed inputs in one build profile, without sanitizers.",
 ["src/lib.rs", "core/src/der.rs", "core/src/ecmult.rs", "core/src/field.rs", "core/src/scalar.rs"],
 [("bounds checks of the DER reader", "core/src/der.rs"), ("magnitude discipline checked by debug assertions", "core/src/field.rs"), ("unsafe blocks", "core/src/ecmult.rs new_boxed, core/src/scalar.rs clear")],
 observe=["process status, sanitizer/Miri/memcheck reports, result transcript per build"])

prop("C19", "Every documented feature combination builds and behaves identically",
 "The crate builds with each documented combination of its features, including without the standard library, and the operations available in a combination return the same results as in the default build, in unoptimised and optimised profiles alike, and on 32-bit and big-endian targets as on 64-bit little-endian ones.",
 ["configurations"], "all combinations of std, hmac, static-context, lazy-static-context; debug and release profiles; word size and byte order of the target",
 "The test suite is run with default features in the debug profile only.",
 ["Cargo.toml", "core/Cargo.toml", "src/lib.rs", "build.rs"],
 [("cfg gates", "src/lib.rs"), ("feature table", "Cargo.toml")],
 observe=["build result and operation transcript per configuration"])

prop("C20", "Operations are pure: independent of history and of concurrent use",
 "Every operation is a function of its arguments alone: repeating a call, calling it after any other calls (including failed ones), or calling it from many threads at once, also while the lazily created contexts are being initialised, gives the same result and never modifies its inputs or shared tables. There are no data races.",
 ["schedules", "histories"], "random interleavings of all operations on 2..16 threads, first-use races, repeated and permuted call sequences",
 "Tests call each operation once or a few times in isolation on one thread.",
 ["src/lib.rs", "core/src/ecmult.rs"],
 [("immutable static contexts / lazy_static initialisation", "src/lib.rs"), ("by-value and &self operations", "core/src/*.rs")],
 observe=["results per thread and per call position, ThreadSanitizer reports, table digests before/after"])

prop("C21", "Wiping a secret leaves no trace in its memory",
 "After a secret key or scalar is cleared it reads as zero and no byte of the old value remains in the memory it occupied, also in optimised builds in which the value is dropped or its memory freed right after the wipe.",
 ["inputs", "configurations"], "all secret values; stack, heap and container placement; optimisation levels with and without link-time optimisation",
 "The existing test reads the value back through the API in a debug build, which cannot notice a wipe the optimiser removes because nothing reads it afterwards.",
 ["core/src/scalar.rs", "src/lib.rs"],
 [("volatile overwrite", "core/src/scalar.rs clear"), ("SecretKey::clear", "src/lib.rs")],
 observe=["freed heap blocks scanned by an interposed allocator in release builds"])

prop("C22", "Work and table accesses of secret-key operations do not depend on the secret",
 "In optimised builds, deriving a public key, signing and computing a shared secret execute the same amount of work, and touch the same set of precomputed-table locations, for every secret key and nonce (signing may differ only by the final negation of s): no zero-window skipping, early exit from table scans or secret-indexed lookups.",
 ["inputs"], "secret keys with random, sparse, dense and boundary bit patterns",
 "Functional tests cannot see timing or memory-access behaviour at all.",
 ["core/src/ecmult.rs", "core/src/group.rs", "core/src/field.rs", "core/src/scalar.rs"],
 [("full table scan with conditional moves", "core/src/ecmult.rs ecmult_gen, table_get_ge_const"), ("fixed-length recoding", "core/src/ecmult.rs ecmult_wnaf_const"), ("branch-free reduction", "core/src/scalar.rs")],
 observe=["instruction counts and data-address traces under a binary-instrumentation monitor"])

prop("C23", "Operations need little stack, bounded heap, and leave no memory behind",
 "Every operation, including building a context on the heap and the first use of a lazily created one, uses at most 128 KiB of stack whatever its input (arbitrarily long lists of keys, byte strings and serialised data included), in optimised and unoptimised builds. Apart from building contexts, no operation allocates more heap than a small multiple of its input's actual size (16 times, plus 64 KiB), whatever lengths the input claims; and repeating operations, with the same or with new arguments, succeeding or failing, does not make the memory in use grow.",
 ["inputs", "histories"], "operations on ordinary, failing, hostile and very long inputs, first and repeated use, in several build profiles",
 "Tests run short inputs on megabytes of stack and never look at memory use.",
 ["core/src/ecmult.rs", "src/lib.rs", "core/src/der.rs"],
 [("tables of 1 MiB are built in place on the heap", "core/src/ecmult.rs new_boxed"), ("iterative combination, parsing in place", "src/lib.rs combine, core/src/der.rs")],
 observe=["lowest stack word overwritten, bytes allocated at once, bytes still allocated"])

prop("C24", "Values behave the same however they were obtained",
 "Every key, signature, message, recovery id and shared secret the API hands out, by whatever route and after any sequence of operations (derivation, parsing in any format, recovery, tweaks including failed ones, combination, inversion, normalisation, conversion from and to the raw affine and scalar types, serde, copying), is indistinguishable from the one parsed from its serialised form: the two compare equal in both directions, they compare unequal to every different value, and every further operation gives the same result for both.",
 ["inputs", "histories"], "sequences of operations whose results feed later operations without being serialised in between",
 "Tests look at a value right after making it and mostly by serialising it; a representation that is slightly off shows only in some later operation or comparison.",
 ["src/lib.rs", "core/src/group.rs", "core/src/field.rs"],
 [("points leave the group code as Affine", "src/lib.rs from_secret_key, recover, combine, tweak_add_assign, TryFrom<Affine>"), ("comparison of representations", "core/src/field.rs PartialEq, core/src/group.rs Affine"), ("normalising serialisation", "src/lib.rs serialize")],
 observe=["results and equality of values that went through random operation sequences"])

prop("C25", "The DER decoder reads exactly the bytes it is given",
 "The public DER decoder (util::Decoder) is a cursor over a byte string: for every string and every sequence of operations, with any count up to usize::MAX, reading, peeking, slicing and skipping return exactly the bytes at the cursor and advance by exactly what was consumed, or, when that many bytes are not left, fail with the invalid-signature error without moving. Strict length reading accepts exactly minimal definite lengths (a long-form length must not exceed what follows it), lax length reading exactly what Bitcoin Core's lax parser reads, and the integer readers consume exactly one INTEGER and return its value, with zero (or, strictly, an error) when it is not below n. The cursor never leaves the string or moves backwards and no operation panics or overflows. A SignatureArray of length up to 72 exposes exactly its first bytes.",
 ["inputs", "histories"], "byte strings and operation sequences, lengths of one to several octets around what is left, counts near the integer limits",
 "No test uses the decoder directly; signature parsing only ever asks for small counts.",
 ["core/src/der.rs"],
 [("bounds-checked cursor", "core/src/der.rs Decoder"), ("length and integer readers", "core/src/der.rs read_len, read_len_lax, read_integer, read_integer_lax")],
 observe=["results and remaining_len after each operation"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
