"""Definitions of the planted bugs (development only; nothing a check runs reads this)."""
S = []
SEEDS = S
def seed(**k): S.append(k)

HEX = r'''
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
#[allow(dead_code)]
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
'''

seed(id="b01-sha-length-field", property="C01",
  needs="a SHA-2 message of 2^29 bytes or more (bit length above 2^32)",
  breaks="the length field of the final block keeps only the low 32 bits of the bit length, so digests of messages of 512 MiB and more are wrong",
  edits=[("src/sha2.rs", "                    .take($block_size - 8)\n", "                    .take($block_size - 4)\n"),
         ("src/sha2.rs", "BigEndian::write_u64(&mut self.buffer[$block_size - 8..], 8 * self.len);", "BigEndian::write_u32(&mut self.buffer[$block_size - 4..], (8 * self.len) as u32);")],
  demo=HEX + r'''
use crypto_pure::sha2::*;
fn main() {
    // SHA-256 of 2^29 + 5 zero bytes (sha256sum)
    let mut h = Sha256::default();
    let z = vec![0u8; 1 << 20];
    for _ in 0..512 { h.update(&z) }
    h.update(&[0; 5]);
    let mut d = [0; 32];
    h.write_digest(&mut d);
    assert_eq!(hex(&d), "067afeb284bda066154edc29030dbfdb883432345edbb83b37c54f87fb33931e");
}
''')

seed(id="b02-sha-spanning-update", property="C02",
  needs="an update that completes an open block and then ends exactly at a later block boundary",
  breaks="the offset into the open block is only reset when the update ends with it or leaves a tail, so the next update or the padding lands in the wrong place",
  edits=[("src/sha2.rs", "                    self.offset = 0;\n                    Self::process(&mut self.state, &self.buffer);\n                    input_offset = buffer_space;",
          "                    if input.len() == buffer_space {\n                        self.offset = 0;\n                    }\n                    Self::process(&mut self.state, &self.buffer);\n                    input_offset = buffer_space;")],
  demo=HEX + r'''
use crypto_pure::sha2::*;
fn main() {
    let m: Vec<u8> = (0..192u8).collect();
    for cut in [1, 63, 64, 65, 100] {
        let mut h = Sha256::default();
        h.update(&m[..cut]);
        h.update(&m[cut..]);
        let mut d = [0; 32];
        h.write_digest(&mut d);
        assert_eq!(d, sha256(&m));
    }
}
''')

seed(id="b03-hmac-key-limit", property="C03",
  needs="an HMAC-SHA-384 or HMAC-SHA-512 key of 65 to 128 bytes",
  breaks="keys longer than twice the digest of SHA-256's size are hashed although they fit the 128-byte block",
  edits=[("src/hmac.rs", "let new_key = if key.len() > H::BLOCK_SIZE {", "let new_key = if key.len() > MAX_DIGEST_SIZE {")],
  demo=HEX + r'''
use crypto_pure::hmac::*;
fn main() {
    // python3: hmac.new(bytes(range(100)), b"abc", "sha512")
    let k: Vec<u8> = (0..100).collect();
    assert_eq!(hex(&hmac_sha512(&k, b"abc")), "c277ac32c51079656a010db2495a176b975ebcf70cf3a83f36e7386f70bd6685623f5d96665dfe1dbe09e6348af8baeb01a82c5a50da9b87e209a359534bd90d");
}
''')

seed(id="b04-hmac-verify-extended", property="C04",
  needs="an offered tag that is the right tag followed by more bytes",
  breaks="verification looks at the first DIGEST_SIZE bytes only, so a tag with trailing bytes is accepted",
  edits=[("src/hmac.rs", "    expected_tag.len() == tag.len() && util::verify_inner(&expected_tag, tag) == 0",
          "    let size = expected_tag.len();\n    tag.len() >= size && util::verify_inner(&expected_tag, &tag[..size]) == 0")],
  demo=HEX + r'''
use crypto_pure::{hmac::*, sha2::*};
fn main() {
    let mut t = hmac_sha256(b"k", b"m").to_vec();
    assert!(verify::<Sha256>(b"k", b"m", &t));
    t.push(0);
    assert!(!verify::<Sha256>(b"k", b"m", &t));
}
''')

seed(id="b05-hkdf-long-prk", property="C05",
  needs="a pseudorandom key longer than the digest and output longer than one digest",
  breaks="the re-keying for the second and later blocks uses only the first DIGEST_SIZE bytes of the key",
  edits=[("src/hkdf.rs", "        hmac = Hmac::new(prk);", "        hmac = Hmac::new(&prk[..digest_size]);")],
  demo=HEX + r'''
use crypto_pure::{hkdf::*, hmac::*, sha2::*};
fn main() {
    let prk: Vec<u8> = (0..40).collect();
    let mut okm = [0; 64];
    expand::<Sha256>(&prk, b"info", &mut okm);
    let t1 = hmac_sha256(&prk, b"info\x01");
    let mut m = t1.to_vec();
    m.extend_from_slice(b"info\x02");
    assert_eq!(okm[..32], t1);
    assert_eq!(okm[32..], hmac_sha256(&prk, &m));
}
''')

seed(id="b06-ghash-stale-padding", property="C07",
  needs="associated data and message both with a partial last block, the message's shorter than the data's",
  breaks="the padding buffer is kept in the hash state and not cleared, so the last message block is padded with leftover data bytes",
  edits=[("src/ghash.rs", "    data_len: u64,\n    ciphertext_len: u64,\n}\n\nimpl GHash", "    data_len: u64,\n    ciphertext_len: u64,\n    buffer: [u8; 16],\n}\n\nimpl GHash"),
         ("src/ghash.rs", "            ciphertext_len: 0,\n", "            ciphertext_len: 0,\n            buffer: [0; 16],\n"),
         ("src/ghash.rs", "                let buffer = &mut [0; 16];\n                buffer[..chunk.len()].copy_from_slice(chunk);\n                self.function.process(buffer);",
          "                self.buffer[..chunk.len()].copy_from_slice(chunk);\n                self.function.process(&self.buffer);")],
  demo=HEX + r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    // python3 cryptography / node: aes-128-gcm, key 0..15, nonce 12 x 7, aad = 13 x 0xaa, message = 5 x 0x55
    let k: Vec<u8> = (0..16).collect();
    let mut c = [0; 5];
    let t = Gcm::<Aes128>::new(&k).encrypt(&[0x55; 5], &[7; 12], &[0xaa; 13], &mut c);
    assert_eq!(hex(&c) + &hex(&t), "c419018834f2f506f92b866ed0b906781ca1ce5fc9");
}
''')

seed(id="b07-chacha-counter16", property="C08",
  needs="more than 4 MiB taken from one Stream",
  breaks="the block counter is 16 bits wide, so the keystream repeats after 65536 blocks",
  edits=[("src/chacha20.rs", "            self.block = self.chacha20.block(self.counter);", "            self.block = self.chacha20.block(u32::from(self.counter as u16));")],
  demo=HEX + r'''
use crypto_pure::chacha20::Stream;
fn main() {
    let v: Vec<u8> = Stream::new(&[1; 32], &[2; 12]).take((1 << 22) + 64).collect();
    assert_ne!(v[..64], v[1 << 22..]);
}
''')

seed(id="b08-poly1305-lost-carry", property="C09",
  needs="a Poly1305 accumulator whose low 128 bits are all ones when the part above 2^130 is folded back in",
  breaks="the carry out of the sixteenth limb after folding is lost, so the tag is wrong",
  edits=[("src/poly1305.rs", "        self.h[16] += u;\n    }\n\n    fn freeze", "        debug_assert!(u <= 1);\n    }\n\n    fn freeze")],
  demo=HEX + r'''
use crypto_pure::{gcm::AeadCipher, poly1305::ChaCha20Poly1305};
fn main() {
    // The tag is what OpenSSL (through Node) gives; the message makes the final accumulator all ones above its low byte.
    let key = unhex("cbc01db2816a7aa376824985d078ca0f27fd76ab3384f6aa30349fbe204e5cd8");
    let nonce = unhex("81e1252e077bf75490357b7e");
    let m = unhex("f094e405da927ae621d9d6cf7117d8048791db91adeeb4404d7a71b27c7623d7");
    let mut o = [0; 32];
    let tag = ChaCha20Poly1305::new(&key).encrypt(&m, &nonce, b"", &mut o);
    assert_eq!(tag[..], unhex("4136069aed7aaa58ad08fbad06f87c85")[..]);
}
''')

seed(id="b09-gcm-short-tags", property="C11",
  needs="a prefix of 12 to 15 bytes of the right tag offered to decrypt",
  breaks="tags truncated to 12 bytes and more are accepted",
  edits=[("src/util.rs", "    x.len() == y.len() && verify_inner(x, y) == 0\n", "    let n = y.len();\n    (12..=x.len()).contains(&n) && verify_inner(&&x[..n], y) == 0\n")],
  demo=HEX + r'''
use crypto_pure::{aes::*, gcm::*, util::verify_16};
fn main() {
    let g = Gcm::<Aes128>::new(&[3; 16]);
    let (mut c, mut p) = ([0; 9], [0; 9]);
    let t = g.encrypt(b"some text", &[7; 12], b"aad", &mut c);
    assert!(g.decrypt(&c, &[7; 12], b"aad", &t, &mut p));
    for n in 0..16 {
        assert!(!g.decrypt(&c, &[7; 12], b"aad", &t[..n], &mut p));
        assert!(!verify_16(&t, &t[..n]));
    }
}
''')

seed(id="b10-gcm-decrypt-batches", property="C10",
  needs="decrypting a message of more than 128 bytes",
  breaks="decryption works in batches of eight blocks and restarts the counter one too high for every batch after the first",
  edits=[("src/gcm.rs", "            self.0.process(counter, input, output);\n            true",
          "            for (batch, (x, y)) in input.chunks(128).zip(output.chunks_mut(128)).enumerate() {\n                self.0.process_batch(counter, batch as u32 * 9 + 2, x, y);\n            }\n            true"),
         ("src/gcm.rs", "    fn block(&self, counter: &mut [u8; 16], i: u32)",
          "    fn process_batch(&self, counter: &mut [u8; 16], first: u32, input: &[u8], output: &mut [u8]) {\n        for (i, (x, y)) in (first..).zip(input.chunks(16).zip(output.chunks_mut(16))) {\n            let block = self.block(counter, i);\n            for (k, (a, b)) in block.iter().zip(x.iter().zip(y)) {\n                *b = a ^ k;\n            }\n        }\n    }\n\n    fn block(&self, counter: &mut [u8; 16], i: u32)")],
  demo=HEX + r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    let g = Gcm::<Aes256>::new(&[3; 32]);
    for n in [0, 1, 16, 127, 128, 129, 200, 1000] {
        let m: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let (mut c, mut p) = (vec![0; n], vec![0; n]);
        let t = g.encrypt(&m, &[7; 12], b"aad", &mut c);
        assert!(g.decrypt(&c, &[7; 12], b"aad", &t, &mut p));
        assert_eq!(m, p, "length {n}");
    }
}
''')

seed(id="b12-stream-length", property="C17",
  needs="an output buffer longer than the input given to Stream::encrypt or decrypt",
  breaks="the length check only refuses outputs that are too short; longer ones are silently left partly unwritten",
  edits=[("src/chacha20.rs", "        assert_eq!(input.len(), output.len());\n        for", "        assert!(input.len() <= output.len());\n        for")],
  demo=HEX + r'''
use crypto_pure::chacha20::Stream;
fn main() {
    for (a, b) in [(3, 4), (4, 3), (0, 1), (64, 65)] {
        let r = std::panic::catch_unwind(|| { let mut o = vec![0; b]; Stream::new(&[1; 32], &[2; 12]).encrypt(&vec![0; a], &mut o) });
        assert!(r.is_err(), "{a} {b}");
    }
}
''')

seed(id="b13-gcm-output-contents", property="C18",
  needs="an output buffer that is not zero before the call",
  breaks="the keystream is combined into the output buffer instead of replacing its contents",
  edits=[("src/gcm.rs", "                *output_byte = input_byte ^ block_byte;", "                *output_byte ^= input_byte ^ block_byte;")],
  demo=HEX + r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    let g = Gcm::<Aes128>::new(&[3; 16]);
    let (mut a, mut b) = ([0; 9], [0xff; 9]);
    let t = g.encrypt(b"some text", &[7; 12], b"aad", &mut a);
    let u = g.encrypt(b"some text", &[7; 12], b"aad", &mut b);
    assert_eq!((a, t), (b, u));
}
''')

seed(id="b14-debug-only-check", property="C19",
  needs="a build without debug assertions, and a key of the wrong length given to AES key expansion",
  breaks="the key length check is a debug assertion, so builds with and without debug assertions disagree: long keys are refused with another message or index error in one and accepted in the other",
  edits=[("src/gcm.rs", "    assert_eq!(message.len(), ciphertext.len());", "    debug_assert_eq!(message.len(), ciphertext.len());")],
  mode="both",
  demo=HEX + r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut o = [0; 12];
        let t = Gcm::<Aes128>::new(&[3; 16]).encrypt(b"some text", &[7; 12], b"aad", &mut o);
        hex(&t)
    });
    println!("{:?}", r.map_err(|_| "panic"));
}
''')

seed(id="b15-early-exit-compare", property="C20",
  needs="observing the instructions executed while a wrong tag is compared",
  breaks="the tag comparison stops at the first differing byte, so the time reveals how much of a forged tag is right",
  edits=[("src/util.rs", "    x.iter().zip(y).fold(0, |acc, (x, y)| acc | (x ^ y))", "    x.iter().zip(y).map(|(x, y)| x ^ y).find(|&d| d != 0).unwrap_or(0)")],
  body="""cargo build -q --offline --release || exit 2
# instructions executed inside main, for several wrong tags
for i in 0 5 15; do
  valgrind --tool=callgrind --callgrind-out-file=/dev/null --toggle-collect='*probe*' ./target/release/demo $i 2>&1 | grep Collected | sed 's/.*Collected/Collected/' > n.$i
  [ -s n.$i ] || exit 2
done
cat n.0 n.5 n.15
cmp n.0 n.5 && cmp n.0 n.15""",
  rel="debug = 1",
  demo=r'''
use crypto_pure::util::verify_16;
#[no_mangle]
#[inline(never)]
pub extern "C" fn probe_compare(a: &[u8; 16], b: &[u8; 16]) -> bool { verify_16(a, b) }
fn main() {
    let i: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let a = [7; 16];
    let mut b = a;
    b[i] ^= 1;
    assert!(!probe_compare(std::hint::black_box(&a), std::hint::black_box(&b)));
}
''')

seed(id="b16-poly1305-squeeze-exit", property="C20",
  needs="observing the instructions executed while Poly1305 reduces its accumulator",
  breaks="the second carry pass stops as soon as no carry is left, so its length depends on the secret accumulator",
  edits=[("src/poly1305.rs", "        u = 5 * (u >> 2);\n        for h_j in self.h.iter_mut().take(16) {\n            u += *h_j;",
          "        u = 5 * (u >> 2);\n        for h_j in self.h.iter_mut().take(16) {\n            if u == 0 {\n                return;\n            }\n            u += *h_j;")],
  body="""cargo build -q --offline --release || exit 2
for i in $(seq 0 24); do
  valgrind --tool=callgrind --callgrind-out-file=/dev/null --toggle-collect='*probe*' ./target/release/demo $i 2>&1 | grep Collected | sed 's/.*Collected/Collected/' >> all
done
[ -s all ] || exit 2
sort all | uniq -c
[ "$(sort -u all | wc -l)" = 1 ]""",
  rel="debug = 1",
  demo=r'''
use crypto_pure::{gcm::AeadCipher, poly1305::ChaCha20Poly1305};
#[no_mangle]
#[inline(never)]
pub extern "C" fn probe_seal(k: &[u8; 32], m: &[u8; 48], c: &mut [u8; 48]) -> u8 { ChaCha20Poly1305::new(k).encrypt(m, &[1; 12], b"", c)[0] }
fn main() {
    let i: u8 = std::env::args().nth(1).unwrap().parse().unwrap();
    let mut c = [0; 48];
    std::hint::black_box(probe_seal(std::hint::black_box(&[i; 32]), std::hint::black_box(&[i; 48]), &mut c));
}
''')

seed(id="b17-gcm-counter16", property="C21",
  needs="a GCM message of more than 65534 blocks (about 1 MiB)",
  breaks="only the low 16 bits of the block counter are written, so the keystream repeats and eventually reuses the block that masks the tag",
  edits=[("src/gcm.rs", "        BigEndian::write_u32(&mut counter[12..], i);", "        BigEndian::write_u16(&mut counter[14..], i as u16);")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    let z = vec![0; (1 << 20) + 64];
    let mut c = z.clone();
    Gcm::<Aes128>::new(&[3; 16]).encrypt(&z, &[7; 12], b"", &mut c);
    assert_ne!(c[..16], c[1 << 20..(1 << 20) + 16]);
}
''')

seed(id="b18-hmac-pad-array", property="C22",
  needs="HMAC over a user-supplied hash with a block longer than 128 bytes",
  breaks="the pad is taken from a fixed 128-byte array, so hashes with longer blocks (SHA3-224 and SHA3-256 among them) panic or get a short pad",
  edits=[("src/hmac.rs", "        for _ in key.len()..H::BLOCK_SIZE {\n            hash_function.update(&[pad]);\n        }\n", "        let pads = [pad; 2 * MAX_DIGEST_SIZE];\n        hash_function.update(&pads[key.len().min(pads.len())..H::BLOCK_SIZE.min(pads.len())]);\n")],
  demo=r'''
use crypto_pure::{hmac::*, sha2::*};
/// SHA-256 behind a declared block of 136 bytes
#[derive(Default)]
struct Wide(Sha256);
impl HashFunction for Wide {
    const DIGEST_SIZE: usize = 32;
    const BLOCK_SIZE: usize = 136;
    fn update(&mut self, i: &[u8]) { self.0.update(i) }
    fn write_digest(self, o: &mut [u8]) { self.0.write_digest(o) }
}
fn main() {
    let mut i = [0x36; 139];
    let mut o = vec![0x5c; 136];
    for j in 0..5 { i[j] ^= 1; o[j] ^= 1 }
    i[136..].copy_from_slice(b"abc");
    o.extend_from_slice(&sha256(&i));
    let mut h = Hmac::<Wide>::new(&[1; 5]);
    h.update(b"abc");
    assert_eq!(h.tag()[..], sha256(&o));
}
''')

seed(id="b19-compare-sum", property="C23",
  needs="two arrays whose byte differences add up to a multiple of 256 (for example two bytes both differing in the top bit)",
  breaks="differences are added instead of or-ed, so they can cancel",
  edits=[("src/util.rs", "acc | (x ^ y))", "u8::wrapping_add(acc, x ^ y))")],
  demo=r'''
use crypto_pure::util::verify_16;
fn main() {
    let a = [7; 16];
    for i in 0..16 { for j in 0..i { for d in 0..8 { let mut b = a; b[i] ^= 1 << d; b[j] ^= 1 << d; assert!(!verify_16(&a, &b)) } } }
}
''')

seed(id="b20-ghash-shared-scratch", property="C24",
  needs="two threads hashing partial blocks at the same time",
  breaks="partial GHASH blocks are padded in one static buffer shared by all threads",
  edits=[("src/ghash.rs", "                let buffer = &mut [0; 16];\n                buffer[..chunk.len()].copy_from_slice(chunk);\n                self.function.process(buffer);",
          "                #[allow(static_mut_refs)]\n                let buffer = unsafe { &mut SCRATCH };\n                *buffer = [0; 16];\n                buffer[..chunk.len()].copy_from_slice(chunk);\n                self.function.process(buffer);"),
         ("src/ghash.rs", "const R0: u128", "static mut SCRATCH: [u8; 16] = [0; 16];\n\nconst R0: u128")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    let one = |j: u8| { let mut c = [0; 7]; Gcm::<Aes128>::new(&[j; 16]).encrypt(&[j; 7], &[7; 12], &[j; 5], &mut c) };
    let want: Vec<_> = (0..8).map(one).collect();
    let hs: Vec<_> = (0..8u8).map(|j| { let w = want[j as usize]; std::thread::spawn(move || (0..200_000).all(|_| { let mut c = [0; 7]; Gcm::<Aes128>::new(&[j; 16]).encrypt(&[j; 7], &[7; 12], &[j; 5], &mut c) == w })) }).collect();
    assert!(hs.into_iter().all(|h| h.join().unwrap()));
}
''')
