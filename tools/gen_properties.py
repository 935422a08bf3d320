#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements are easy to edit and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "SHA-2 digests are the FIPS 180-4 digests of the message, at every length",
  "For every byte string the SHA-224, SHA-256, SHA-384 and SHA-512 functions (hash objects and one-call wrappers) output exactly the FIPS 180-4 digest of that string. This includes every position of the message end relative to the block and to the length field, and messages whose bit or byte length exceeds 32 bits.",
  ["inputs"], "all messages of all lengths (up to the documented 2^64-8 bits)",
  "Tests hash 7 fixed messages: a handful of lengths, none near the padding boundary of SHA-512, none above 2^20 bytes.",
  ["src/sha2.rs"], [("compression, padding, length field", "src/sha2.rs impl_processor! process/pad/write_digest"), ("initial values and round constants", "src/sha2.rs SHA*, K*")],
  [("offset", "bytes buffered in the open block", "src/sha2.rs Processor512/Processor256"), ("len", "total bytes absorbed", "src/sha2.rs Processor512/Processor256")],
  ["sha2::sha224/sha256/sha384/sha512", "HashFunction::write_digest"])
p("C02", "Hashing is independent of how the message is split across updates",
  "For every message and every way of cutting it into a sequence of update calls, including empty updates and updates spanning several blocks, the digest equals the digest of the concatenation.",
  ["histories", "inputs"], "all sequences of update calls on a hash object, of any lengths",
  "Tests only split messages into 4-byte words, which never cross a block boundary; no unaligned or multi-block continuation is exercised.",
  ["src/sha2.rs"], [("block buffering across calls", "src/sha2.rs impl_processor! update")],
  [("buffer/offset", "partial block carried between calls", "src/sha2.rs Processor512/Processor256")],
  ["HashFunction::update", "HashFunction::write_digest"])
p("C03", "HMAC tags are the RFC 2104 tags, for every key length and message split",
  "For each SHA-2 function, every key (empty, shorter than, equal to, or longer than the hash block) and every message fed in any number of pieces, the HMAC tag (streaming and wrapper forms) equals the RFC 2104 / FIPS 198-1 tag.",
  ["inputs", "histories"], "all keys, all messages, all partitions of the message over update calls",
  "Six RFC 4231 vectors: key lengths 4, 20, 25 and 131 only; never a key of exactly a block or next to it.",
  ["src/hmac.rs", "src/sha2.rs"], [("key normalisation and pads", "src/hmac.rs Hmac::new, keyed_hash_function"), ("nested hash", "src/hmac.rs write_tag")],
  None, ["hmac::Hmac", "hmac::hmac_sha*"])
p("C04", "HMAC verification accepts exactly the correct full-length tag",
  "Verification returns true if and only if the offered tag is byte-for-byte the full HMAC tag of that message under that key. Any altered, truncated, extended, empty or otherwise different tag, message or key yields false, and never a panic.",
  ["inputs"], "all keys, messages and offered tags of any length",
  "Only the accepting direction is tested (a TODO in the test says so) plus one forged message in a doc test.",
  ["src/hmac.rs", "src/util.rs"], [("length check and accumulated comparison", "src/hmac.rs verify, src/util.rs verify_inner")],
  None, ["hmac::verify"])
p("C05", "HKDF extract and expand produce the RFC 5869 output at every length",
  "For each SHA-2 function, extract yields the RFC 5869 pseudorandom key for every salt and input, and expand yields exactly the first L bytes of the RFC 5869 output stream for every pseudorandom key at least one digest long, every info and every L from 0 up to and including 255 digests.",
  ["inputs"], "all salts, keys, infos and all output lengths 0..=255*digest size",
  "Three RFC vectors with SHA-256 only, L = 42 or 82; longest legal output, exact multiples and other hashes untested.",
  ["src/hkdf.rs", "src/hmac.rs"], [("block counter and chaining", "src/hkdf.rs expand")],
  [("i", "one-byte block counter", "src/hkdf.rs expand")], ["hkdf::extract", "hkdf::expand"])
p("C06", "AES block encryption is FIPS-197 AES for all three key sizes",
  "For every key of 16, 24 or 32 bytes and every 16-byte block, the block cipher output equals FIPS-197 AES encryption with that key.",
  ["inputs"], "all keys of the three sizes, all blocks",
  "One example vector per key size plus round traces of a single key.",
  ["src/aes.rs"], [("key expansion", "src/aes.rs key_expansion"), ("rounds", "src/aes.rs permute, sub_bytes, shift_rows, mix_columns, s_box")],
  None, ["aes::BlockCipher::permute"])
p("C07", "AES-GCM encryption produces the SP 800-38D ciphertext and tag",
  "For every key, 12-byte nonce, associated data and message within the limits, GCM encryption with AES-128/192/256 fills the output buffer with exactly the SP 800-38D ciphertext and returns exactly the SP 800-38D tag, at every combination of data and message lengths.",
  ["inputs"], "all keys, nonces, associated data and messages, all length combinations",
  "12 vectors: lengths 0, 16, 60 and 64 with data of 0 or 20 bytes; no multi-byte block counter, no large length fields.",
  ["src/gcm.rs", "src/ghash.rs", "src/aes.rs"], [("counter mode", "src/gcm.rs Processor::process/block"), ("GHASH", "src/ghash.rs GHash, PolyFunction"), ("tag mask", "src/gcm.rs Processor::tag")],
  None, ["gcm::AeadCipher::encrypt"])
p("C08", "The ChaCha20 stream is one continuous RFC 8439 keystream",
  "For every key and nonce a stream object yields the RFC 8439 ChaCha20 keystream from block 0 on. Every sequence of byte reads, skips, encrypt and decrypt calls consumes consecutive keystream bytes exactly once each, whatever the piece sizes, and encrypting or decrypting XORs exactly those bytes.",
  ["histories", "inputs"], "all keys and nonces, all sequences of iterator/encrypt/decrypt operations of any sizes",
  "One 114-byte message at offset 64 and a few single blocks with counters 0..2; call sequences are untested.",
  ["src/chacha20.rs"], [("block function", "src/chacha20.rs ChaCha20"), ("position keeping", "src/chacha20.rs Stream::next, process")],
  [("counter/block_index", "stream position", "src/chacha20.rs Stream")], ["chacha20::Stream"])
p("C09", "ChaCha20-Poly1305 encryption produces the RFC 8439 ciphertext and tag",
  "For every 32-byte key, 12-byte nonce, associated data and message within the cipher's limits, encryption fills the output buffer with exactly the RFC 8439 ciphertext and returns exactly the RFC 8439 tag, including when the authenticator's accumulator takes extreme values.",
  ["inputs"], "all keys, nonces, associated data and messages, all length combinations, all accumulator values",
  "Two vectors; the accumulator reaches the top of its range with probability about 2^-128 on sampled inputs, so no random test sees it.",
  ["src/poly1305.rs", "src/chacha20.rs"], [("Poly1305 arithmetic", "src/poly1305.rs PolyFunction"), ("AEAD framing", "src/poly1305.rs ChaCha20Poly1305, Poly1305")],
  [("h", "accumulator modulo 2^130-5", "src/poly1305.rs PolyFunction")], ["poly1305::ChaCha20Poly1305::encrypt"])
p("C10", "Decryption inverts encryption for every AEAD input",
  "For AES-GCM with every key size and for ChaCha20-Poly1305: whatever encrypt outputs for a key, nonce, data and message, decrypt with the same key, nonce and data accepts it and restores the message exactly, for all lengths including empty and multi-megabyte messages.",
  ["inputs"], "all keys, nonces, data and messages; all length combinations",
  "Round trips are tested on about 14 fixed vectors only.",
  ["src/gcm.rs", "src/poly1305.rs"], [("shared keystream processing", "src/gcm.rs Processor::process, src/poly1305.rs process"), ("tag over ciphertext on both sides", "src/gcm.rs encrypt/decrypt, src/poly1305.rs encrypt/decrypt")],
  None, ["gcm::AeadCipher::decrypt"])
p("C11", "AEAD decryption rejects every forgery and releases nothing on rejection",
  "Decryption returns true only if the offered tag is exactly the correct 16-byte tag for that key, nonce, data and ciphertext; any change to ciphertext, data, nonce, key or tag, any other tag length, and any move of bytes between data and ciphertext yields false without panicking. When it returns false the output buffer is left exactly as it was.",
  ["inputs", "fault_sequences"], "all received (ciphertext, data, nonce, tag) tuples, in particular all corruptions of honest ones",
  "No test decrypts with a bad tag (TODOs in the tests say so).",
  ["src/gcm.rs", "src/poly1305.rs", "src/util.rs"], [("verify before decrypt", "src/gcm.rs decrypt, src/poly1305.rs decrypt"), ("tag comparison", "src/util.rs verify_16"), ("length block", "src/ghash.rs write_tag, src/poly1305.rs write_tag")],
  None, ["gcm::AeadCipher::decrypt"])
p("C12", "Curve25519 Diffie-Hellman computes the RFC 7748 X25519 function",
  "For every 32-byte scalar and every 32-byte u-coordinate the shared-secret function returns exactly X25519(scalar, u) of RFC 7748: the scalar is clamped, the top bit of u is ignored, non-canonical u are reduced, low-order u give zero, and the result is the canonical encoding. The public-key function returns X25519(scalar, 9).",
  ["inputs"], "all 2^256 scalars and all 2^256 u strings, including non-canonical, low-order and twist points",
  "Four multiplications with generic inputs; no edge encodings, no edge results, no rare carries.",
  ["src/curve25519.rs"], [("Montgomery ladder and clamping", "src/curve25519.rs scalarmult"), ("field arithmetic", "src/curve25519.rs Fe, fe_mul!, fe_sq!, fe_invert!"), ("encoding", "src/curve25519.rs assign_from_bytes, write_bytes")],
  None, ["curve25519::dh", "curve25519::gen_pk"])
p("C13", "Both sides of a Curve25519 key exchange get the same secret",
  "For every pair of secret keys a and b, combining a's secret with b's public key gives the same 32 bytes as combining b's secret with a's public key, and this shared secret is the same for all secret keys that clamp to the same scalar.",
  ["inputs"], "all pairs of 32-byte secret keys",
  "One RFC 7748 pair is tested.",
  ["src/curve25519.rs"], [("ladder commutes", "src/curve25519.rs scalarmult, gen_pk, dh")], None, ["curve25519::gen_pk", "curve25519::dh"])
p("C14", "Ed25519 keys and signatures are the deterministic RFC 8032 ones",
  "For every 32-byte secret key the public key equals the RFC 8032 Ed25519 public key, and for every message of any length the signature equals the RFC 8032 signature (canonical R and canonical S), with no other input influencing it.",
  ["inputs"], "all secret keys, all messages of all lengths",
  "Five RFC 8032 vectors; the 256-entry base-point table and the scalar reduction carries are reached only by the digits of those five keys.",
  ["src/ed25519.rs", "src/const_curve25519.rs", "src/sha2.rs"], [("fixed-base multiplication", "src/ed25519.rs from_scalarmult_base, select, BASE"), ("scalar arithmetic", "src/ed25519.rs sc_reduce, sc_muladd"), ("encoding", "src/ed25519.rs ge_p3_tobytes")],
  None, ["ed25519::gen_pk", "ed25519::sign"])
p("C15", "Ed25519 verification accepts every valid signature",
  "Every signature that satisfies the RFC 8032 verification equation [S]B = R + [k]A with canonical S, canonically encoded R and a validly encoded public key A is accepted: in particular every signature made by the signing function for the matching key and message, and valid signatures made with extreme scalars.",
  ["inputs"], "all key pairs, messages and valid signatures, including edge values of S, R and A",
  "Five vectors; window digits, table entries and edge scalars (0, 1, L-1, single bits) are not systematically reached.",
  ["src/ed25519.rs", "src/const_curve25519.rs"], [("double scalar multiplication", "src/ed25519.rs from_double_scalarmult_vartime, slide, BI"), ("point decoding", "src/ed25519.rs from_bytes_negate_vartime")],
  None, ["ed25519::verify"])
p("C16", "Ed25519 verification rejects everything else, without panicking",
  "Verification returns false, without panicking, for every signature that does not satisfy the RFC 8032 equation for that message and key: any altered bit of signature, message or key, any signature length other than 64, any S not below the group order (no malleability), any non-canonical R, and any public key that RFC 8032 decoding refuses (not on the curve, y not below p, or x = 0 with the sign bit set).",
  ["inputs", "fault_sequences"], "all (message, signature, public key) triples, in particular all corruptions of valid ones",
  "No test offers an invalid signature at all.",
  ["src/ed25519.rs", "src/curve25519.rs"], [("length, S and key checks", "src/ed25519.rs verify, from_bytes_negate_vartime"), ("comparison of R", "src/curve25519.rs verify_32")],
  None, ["ed25519::verify"])
p("C17", "Operations panic exactly when a documented precondition is violated",
  "Every public operation completes without panicking on every input that meets its documented length preconditions (in builds with and without overflow checks), and panics on every input that violates one (wrong key, nonce, output, digest, pseudorandom-key or public-key length, HKDF output above 255 digests) before writing any output. A rejected call leaves the caller's buffers, and a reusable cipher or stream object, as they were.",
  ["inputs", "fault_sequences"], "all argument length combinations of all public operations; object use after a rejected call",
  "No test passes a wrong length; tests never probe both sides of any bound.",
  ["src/aes.rs", "src/gcm.rs", "src/chacha20.rs", "src/poly1305.rs", "src/hkdf.rs", "src/hmac.rs", "src/sha2.rs", "src/curve25519.rs", "src/ed25519.rs"],
  [("entry assertions", "assert! at the top of each public function; src/gcm.rs check_bounds")], None, ["every public function"])
p("C18", "Results depend only on the arguments, never on history or buffer contents",
  "Each operation's result is a function of its arguments and of the operations on its own object only: it does not depend on earlier calls, on other objects (of the same or other keys) used in between, on failed decryptions, on earlier panics, or on what output buffers held before. A cipher object can be reused any number of times and gives the same result as a fresh one.",
  ["histories"], "all sequences of public calls over any number of live objects",
  "Each test uses one fresh object per vector and zeroed output buffers.",
  ["src/gcm.rs", "src/poly1305.rs", "src/chacha20.rs", "src/hmac.rs", "src/sha2.rs", "src/ed25519.rs", "src/curve25519.rs"],
  [("no shared state; ciphers take &self", "src/gcm.rs AeadCipher, src/aes.rs BlockCipher"), ("buffers overwritten, not accumulated", "src/gcm.rs process, src/hkdf.rs expand, src/sha2.rs write_digest")],
  None, ["every public function"])
p("C19", "Build configuration does not change any result",
  "With and without the std feature, and with and without overflow checks and debug assertions, every operation returns the same result (same bytes, same accept/reject, same panics) on the same inputs.",
  ["configurations", "inputs"], "all combinations of the crate feature and build profile, over all inputs",
  "The suite is run with and without std but only in the debug profile and on the same few vectors.",
  ["src/lib.rs", "Cargo.toml"], [("feature gate", "src/lib.rs cfg(feature = \"std\")"), ("wrapping arithmetic where intended", "src/sha2.rs, src/chacha20.rs, src/curve25519.rs")], None, ["every public function"])
p("C20", "Secret data never steers control flow or memory addresses",
  "For SHA-2, AES, GCM and ChaCha20-Poly1305 encryption and decryption, HMAC computation and verification, HKDF, X25519 and Ed25519 key generation and signing, in optimised and unoptimised builds alike, the sequence of executed basic blocks and of accessed memory locations depends only on public lengths and on the accept/reject outcome, not on the values of keys, plaintexts, scalars or on where an offered tag differs from the right one.",
  ["inputs"], "all pairs of secret values of equal length (two-execution property)",
  "Tests compare values only; no test observes control flow or addresses.",
  ["src/aes.rs", "src/ghash.rs", "src/util.rs", "src/curve25519.rs", "src/ed25519.rs", "src/poly1305.rs"],
  [("computed S-box", "src/aes.rs s_box"), ("mask arithmetic", "src/ghash.rs process, src/curve25519.rs cswap_with, src/ed25519.rs cmov/select"), ("accumulating comparison", "src/util.rs verify_inner")],
  None, ["instrumented build of the crate: basic-block, load and store traces"])
p("C21", "Counters never repeat keystream within a message; overlong inputs are refused",
  "Within one encryption no counter block is ever fed to the cipher twice, and no keystream block coincides with the block that masks the tag or derives the authentication key. Messages that would need more blocks than the 32-bit counter provides (at or above 2^36-32 bytes for GCM as documented, above 2^38-64 bytes for ChaCha20-Poly1305) are refused, and every shorter message is accepted, in every build profile.",
  ["inputs"], "all message lengths up to and beyond the cipher limits",
  "Tests stay below 18 blocks; the limits are 2^32 blocks away.",
  ["src/gcm.rs", "src/poly1305.rs"], [("length limits", "src/gcm.rs check_bounds"), ("block numbering", "src/gcm.rs Processor::process/tag, src/poly1305.rs process/poly_key_gen")],
  [("i", "32-bit block counter", "src/gcm.rs process, src/poly1305.rs process")], ["BlockCipher::permute calls made by Gcm", "gcm::AeadCipher::encrypt"])
p("C22", "GCM, HMAC and HKDF are correct over any user-supplied cipher or hash",
  "GCM over any implementation of the block-cipher trait equals SP 800-38D with that cipher, and HMAC and HKDF over any implementation of the hash trait (any block size, any digest size up to 64 bytes) equal RFC 2104 and RFC 5869 with that hash, for all key, message and output lengths.",
  ["inputs", "programs"], "all implementations of the public cipher and hash traits",
  "Tests only instantiate the crate's own AES and SHA-2 types.",
  ["src/gcm.rs", "src/ghash.rs", "src/hmac.rs", "src/hkdf.rs"], [("generic modes", "src/gcm.rs Gcm<E>, src/hmac.rs Hmac<H>, src/hkdf.rs extract/expand"), ("GHASH multiplication for any H", "src/ghash.rs PolyFunction")],
  None, ["gcm::Gcm<E>", "hmac::Hmac<H>", "hkdf::*<H>"])
p("C23", "The 16-byte comparison is exact equality",
  "The public 16-byte verification helper returns true exactly when the second argument is 16 bytes long and equal to the first in every bit, for all inputs, and never panics.",
  ["inputs"], "all 16-byte arrays and all slices of any length",
  "Ten example pairs; differences that cancel under a wrong accumulation are not among them.",
  ["src/util.rs"], [("accumulated xor", "src/util.rs verify_16, verify_inner")], None, ["util::verify_16"])
p("C24", "Concurrent use from several threads gives the same results as sequential use",
  "When several threads use the library at the same time, on the same shared cipher object or on separate objects, every call returns exactly what it returns when run alone, under every interleaving.",
  ["schedules"], "all thread interleavings of concurrent calls",
  "No test uses two threads on one object; the test runner's own parallelism checks nothing about overlap.",
  ["src/aes.rs", "src/gcm.rs", "src/poly1305.rs", "src/chacha20.rs", "src/sha2.rs", "src/hmac.rs", "src/hkdf.rs", "src/curve25519.rs", "src/ed25519.rs"],
  [("no shared mutable state; &self operations", "src/gcm.rs AeadCipher, src/aes.rs BlockCipher")], None, ["instrumented build: shared memory accesses of each call; call results under controlled schedules"])
p("C25", "Operations use no heap and a fixed amount of stack, whatever the input lengths",
  "No public operation that returns allocates heap memory, and the stack it uses is bounded by a constant (below 64 KiB in optimised builds) that does not grow with the length of any argument, in accepting and rejecting calls alike. So no message, key, data or output length can exhaust the stack or the heap.",
  ["inputs"], "all operations, all lengths of every variable-length argument",
  "Tests see only results on short inputs: a buffer collected on the heap or a recursion over blocks gives the same bytes until the input is long or memory is short.",
  ["src/lib.rs", "src/sha2.rs", "src/hmac.rs", "src/hkdf.rs", "src/aes.rs", "src/gcm.rs", "src/ghash.rs", "src/poly1305.rs", "src/chacha20.rs", "src/ed25519.rs", "src/curve25519.rs"],
  [("no_std crate with fixed-size arrays only; iteration over chunks", "src/lib.rs no_std attribute; src/sha2.rs impl_processor!, src/gcm.rs Processor::process, src/ghash.rs, src/poly1305.rs process")], None, ["counting allocator and painted stack around each call of the public interface"])
p("C26", "Every call ends after work linear in the lengths of its arguments",
  "Every public operation returns (or panics) after an amount of work bounded by a linear function of the lengths of its arguments, in accepting and rejecting calls alike, and for arguments of fixed length (keys, points, scalars, signatures, tags) no contents make it take more than a small factor over ordinary contents. So no input, however long or maliciously chosen, makes a call hang or blow up.",
  ["inputs", "histories"], "all operations, all lengths and contents of every argument, all ways of feeding the same input",
  "Tests see results only, on short inputs: work that grows with the square of the length, or a loop that some contents make long, goes unnoticed.",
  ["src/sha2.rs", "src/hmac.rs", "src/hkdf.rs", "src/gcm.rs", "src/ghash.rs", "src/poly1305.rs", "src/chacha20.rs", "src/ed25519.rs", "src/curve25519.rs", "src/util.rs"],
  [("one pass over the input in blocks, fixed loops elsewhere", "src/sha2.rs impl_processor! update, src/gcm.rs process, src/ghash.rs and src/poly1305.rs process, src/hkdf.rs expand, src/ed25519.rs slide")], None, ["instrumented build: number of basic blocks, memory accesses and bytes moved by each call"])
p("C27", "Results do not depend on the machine: 32-bit addresses, big-endian byte order, no standard library",
  "The library builds without the standard library and for machines with 32-bit addresses and with either byte order, and every operation gives there, for every input, the same bytes, the same accept or reject and the same panics as in the ordinary 64-bit little-endian build, also when byte or bit counts pass 2^32.",
  ["inputs"], "all operations and inputs, on every kind of machine",
  "The tests run on one 64-bit little-endian machine with the standard library; native byte order, usize arithmetic and std-only code look right there.",
  ["src/lib.rs", "src/sha2.rs", "src/hmac.rs", "src/hkdf.rs", "src/aes.rs", "src/gcm.rs", "src/ghash.rs", "src/poly1305.rs", "src/chacha20.rs", "src/ed25519.rs", "src/curve25519.rs"],
  [("explicit byte orders and 64-bit counts; no_std attribute", "src/lib.rs; byteorder's BigEndian and LittleEndian in src/sha2.rs, src/ghash.rs, src/poly1305.rs, src/chacha20.rs, src/gcm.rs; load_3 and load_4 in src/curve25519.rs")], None, ["the public interface, compiled to WebAssembly and interpreted by Miri for a big-endian machine"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
