from seeds_def import seed, HEX

seed(id="b11-x25519-noncanonical-u", property="C12",
  needs="a public key whose u-coordinate is encoded as p or more (2^255-19 to 2^255-1)",
  breaks="u-coordinates that are not reduced are treated as zero instead of being reduced",
  edits=[("src/curve25519.rs", "    x1.assign_from_bytes(p);\n", "    x1.assign_from_bytes(p);\n    if p[0] >= 0xed && p[31] & 0x7f == 0x7f && p[1..31].iter().all(|&x| x == 0xff) {\n        x1.assign_zero();\n    }\n")],
  demo=r'''
use crypto_pure::curve25519::dh;
fn main() {
    // p + 9 is another encoding of the base point's u = 9
    let mut u = [0xff; 32];
    u[0] = 0xf6;
    u[31] = 0x7f;
    let mut nine = [0; 32];
    nine[0] = 9;
    for k in 0..4 { assert_eq!(dh(&u, &[k; 32]), dh(&nine, &[k; 32])) }
}
''')

seed(id="b21-ed25519-r-sign", property="C16",
  needs="a signature whose R differs from the right one in the sign bit, made so that the equation still holds",
  breaks="the comparison of R ignores its top bit, so a second encoding of R is accepted",
  edits=[("src/ed25519.rs", "    let rcheck = r.to_bytes();\n    verify_32(&rcheck, rcopy) == 0", "    let mut rcheck = r.to_bytes();\n    rcheck[31] = (rcheck[31] & 127) | (rcopy[31] & 128);\n    verify_32(&rcheck, rcopy) == 0")],
  demo=r'''
use crypto_pure::ed25519::verify;
fn main() {
    // public key: the neutral element; S = 0; so R must be the neutral element, 01 00 .. 00
    let mut pk = [0; 32];
    pk[0] = 1;
    let mut s = [0; 64];
    s[0] = 1;
    assert!(verify(b"m", &s, &pk));
    s[31] = 0x80;
    assert!(!verify(b"m", &s, &pk));
}
''')

seed(id="b22-slide-carry", property="C15",
  needs="a scalar with a run of more than sixteen one bits where the recoding borrows",
  breaks="the carry of the signed-window recoding is propagated over at most sixteen digits, so verification of some valid signatures fails",
  edits=[("src/ed25519.rs", "for r_k in r[(i + b)..].iter_mut() {", "for r_k in r[(i + b)..].iter_mut().take(16) {")],
  demo=HEX + r'''
use crypto_pure::ed25519::verify;
fn main() {
    // public key: the neutral element, so R = S B; S = 2^250 - 1
    let mut pk = [0; 32];
    pk[0] = 1;
    let mut s = [0xff; 64];
    s[..32].copy_from_slice(&unhex("af94457980a718d0bcbfbbdbc82b45eb18b695123c901ef0bdf333f231fd1ed6"));
    s[63] = 3;
    assert!(verify(b"m", &s, &pk), "{}", hex(&s));
}
''')

seed(id="b23-chacha-block-cache", property="C24",
  needs="two threads using ChaCha20 with different keys, one replacing the cached block while the other copies it out",
  breaks="the last block is cached in shared atomics; the tag is checked before the words are copied but not after, so a thread can get (part of) another key's block",
  edits=[("src/chacha20.rs", "        let mut state = [0; 16];\n        self.transform_state(&mut state, counter);\n        Self::serialize_block(state)\n",
   '''        let tag = self.state.iter().fold(u64::from(counter) + 1, |acc, &x| {
            (acc ^ u64::from(x))
                .wrapping_mul(0x0000_0100_0000_01b3)
                .rotate_left(29)
        }) | 1;
        let mut state = [0; 16];
        if CACHED.load(Ordering::Acquire) == tag {
            for (x, y) in state.iter_mut().zip(&CACHE) {
                *x = y.load(Ordering::Relaxed);
            }
        } else {
            self.transform_state(&mut state, counter);
            CACHED.store(0, Ordering::Release);
            for (x, y) in state.iter().zip(&CACHE) {
                y.store(*x, Ordering::Relaxed);
            }
            CACHED.store(tag, Ordering::Release);
        }
        Self::serialize_block(state)
'''),
   ("src/chacha20.rs", "pub(crate) struct ChaCha20 {", '''static CACHED: AtomicU64 = AtomicU64::new(0);
static CACHE: [AtomicU32; 16] = [const { AtomicU32::new(0) }; 16];

pub(crate) struct ChaCha20 {'''),
   ("src/chacha20.rs", "use byteorder::{ByteOrder as _, LittleEndian};\n\n/// A ChaCha20 iterator", "use byteorder::{ByteOrder as _, LittleEndian};\nuse core::sync::atomic::{AtomicU32, AtomicU64, Ordering};\n\n/// A ChaCha20 iterator")],
  demo=r'''
use crypto_pure::chacha20::Stream;
fn main() {
    // every thread keeps asking for its own block, so that hits and replacements mix
    let one = |j: u8| -> Vec<u8> { Stream::new(&[j; 32], &[j; 12]).take(64).collect() };
    let want: Vec<_> = (0..4).map(one).collect();
    let hs: Vec<_> = (0..4u8).map(|j| { let w = want[j as usize].clone(); std::thread::spawn(move || (0..1_500_000).all(|_| Stream::new(&[j; 32], &[j; 12]).zip(&w).take(64).all(|(a, b)| a == *b))) }).collect();
    assert!(hs.into_iter().all(|h| h.join().unwrap()));
}
''')

seed(id="b24-lazy-hash-key", property="C24",
  needs="two threads making the first use of the same Gcm object at the same time",
  breaks="the GHASH key is computed on first use and marked ready before both halves are stored, so a second thread can authenticate with a zero or half key",
  edits=[("src/gcm.rs", "struct Processor<E> {\n    block_cipher: E,\n", "struct Processor<E> {\n    block_cipher: E,\n    ready: AtomicBool,\n    hash_key: [AtomicU64; 2],\n"),
   ("src/gcm.rs", "            block_cipher: E::new(key),\n", "            block_cipher: E::new(key),\n            ready: AtomicBool::new(false),\n            hash_key: [AtomicU64::new(0), AtomicU64::new(0)],\n"),
   ("src/gcm.rs", "        let key = &self.block_cipher.permute(&[0; 16]);\n        ghash::ghash(key, a, c)", '''        if !self.ready.swap(true, Ordering::AcqRel) {
            let key = self.block_cipher.permute(&[0; 16]);
            self.hash_key[0].store(BigEndian::read_u64(&key[..8]), Ordering::Release);
            self.hash_key[1].store(BigEndian::read_u64(&key[8..]), Ordering::Release);
        }
        let mut key = [0; 16];
        BigEndian::write_u64(&mut key[..8], self.hash_key[0].load(Ordering::Acquire));
        BigEndian::write_u64(&mut key[8..], self.hash_key[1].load(Ordering::Acquire));
        ghash::ghash(&key, a, c)'''),
   ("src/gcm.rs", "use byteorder::{BigEndian, ByteOrder as _};\n", "use byteorder::{BigEndian, ByteOrder as _};\nuse core::sync::atomic::{AtomicBool, AtomicU64, Ordering};\n")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
use std::sync::{atomic::*, Arc};
fn main() {
    for i in 0..4000u32 {
        let g = Arc::new(Gcm::<Aes128>::new(&[i as u8; 16]));
        let go = Arc::new(AtomicUsize::new(0));
        let hs: Vec<_> = (0..4).map(|_| { let (g, go) = (g.clone(), go.clone()); std::thread::spawn(move || {
            go.fetch_add(1, Ordering::SeqCst);
            while go.load(Ordering::SeqCst) < 4 { std::thread::yield_now() }
            g.encrypt(&[], &[2; 12], b"aad", &mut [])
        }) }).collect();
        let want = Gcm::<Aes128>::new(&[i as u8; 16]).encrypt(&[], &[2; 12], b"aad", &mut []);
        for h in hs { assert_eq!(h.join().unwrap(), want) }
    }
}
''')

seed(id="b25-ghash-key-cache", property="C22",
  needs="two different ciphers used in GCM with the same key bytes, one after the other",
  breaks="the GHASH key is remembered per key bytes but not per cipher, so a second cipher type under the same key gets the first one's GHASH key",
  edits=[("src/gcm.rs", "        Self {\n            block_cipher: E::new(key),\n        }\n", '''        let block_cipher = E::new(key);
        let tag = key.iter().fold(key.len() as u64 + 1, |acc, &x| {
            (acc ^ u64::from(x))
                .wrapping_mul(0x0000_0100_0000_01b3)
                .rotate_left(23)
        });
        let mut hash_key = [0; 16];
        let mut words = [0; 2];
        let last = (
            LAST[0].load(Ordering::SeqCst),
            LAST[1].load(Ordering::SeqCst),
            LAST[2].load(Ordering::SeqCst),
        );
        if last.0 == tag && last.1 ^ last.2 ^ tag == LAST[3].load(Ordering::SeqCst) {
            words[0] = last.1;
            words[1] = last.2;
            BigEndian::write_u64_into(&words, &mut hash_key);
        } else {
            hash_key = block_cipher.permute(&[0; 16]);
            BigEndian::read_u64_into(&hash_key, &mut words);
            LAST[0].store(tag, Ordering::SeqCst);
            LAST[1].store(words[0], Ordering::SeqCst);
            LAST[2].store(words[1], Ordering::SeqCst);
            LAST[3].store(words[0] ^ words[1] ^ tag, Ordering::SeqCst);
        }
        Self {
            block_cipher,
            hash_key,
        }
'''),
   ("src/gcm.rs", "struct Processor<E> {\n    block_cipher: E,\n", "/// The last key's GHASH key, with a checksum\nstatic LAST: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];\n\nstruct Processor<E> {\n    block_cipher: E,\n    hash_key: [u8; 16],\n"),
   ("src/gcm.rs", "        let key = &self.block_cipher.permute(&[0; 16]);\n        ghash::ghash(key, a, c)", "        ghash::ghash(&self.hash_key, a, c)"),
   ("src/gcm.rs", "use byteorder::{BigEndian, ByteOrder as _};\n", "use byteorder::{BigEndian, ByteOrder as _};\nuse core::sync::atomic::{AtomicU64, Ordering};\n")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
/// a toy cipher
struct Toy([u8; 16]);
impl BlockCipher for Toy {
    fn new(key: &[u8]) -> Self { let mut k = [0; 16]; k.copy_from_slice(&key[..16]); Toy(k) }
    fn permute(&self, i: &[u8; 16]) -> [u8; 16] { let mut o = *i; for (a, b) in o.iter_mut().zip(&self.0) { *a = (*a ^ b).rotate_left(3) } o }
}
fn main() {
    let k = [5; 16];
    let toy = || { let mut c = [0; 20]; Gcm::<Toy>::new(&k).encrypt(&[1; 20], &[2; 12], b"aad", &mut c) };
    let aes = || { let mut c = [0; 20]; Gcm::<Aes128>::new(&k).encrypt(&[1; 20], &[2; 12], b"aad", &mut c) };
    let a = toy();
    Gcm::<Aes128>::new(&[6; 16]).encrypt(&[], &[2; 12], b"", &mut []);
    aes();
    assert_eq!(a, toy());
}
''')

seed(id="b26-nostd-length", property="C19",
  needs="a build without the std feature, and a message of 2^29 bytes or more",
  breaks="without std the bit length is computed in 32 bits",
  edits=[("src/sha2.rs", "                self.len += input.len() as u64;\n", "                self.len += input.len() as u64;\n                if cfg!(not(feature = \"std\")) {\n                    self.len &= u64::from(u32::MAX >> 3);\n                }\n")],
  body='''cargo build -q --offline --release || exit 2
timeout 120 ./target/release/demo > a.txt || exit 2
sed -i 's/crypto-pure = {/crypto-pure = { default-features = false,/' Cargo.toml
cargo build -q --offline --release || exit 2
timeout 120 ./target/release/demo > b.txt || exit 2
cmp a.txt b.txt''',
  demo=HEX + r'''
use crypto_pure::sha2::*;
fn main() {
    let mut h = Sha512::default();
    let z = vec![0u8; 1 << 20];
    for _ in 0..512 { h.update(&z) }
    let mut d = [0; 64];
    h.write_digest(&mut d);
    println!("{}", hex(&d));
}
''')

seed(id="b27-key-schedule-table", property="C20",
  needs="observing the addresses loaded while an AES key is expanded",
  breaks="the key schedule looks its S-box values up in a table, at addresses that depend on the key",
  edits=[("src/aes.rs", "fn sub_word(word: &mut [u8; 4]) {\n    for byte in word {\n        *byte = s_box(*byte);\n    }\n", '''static S_BOX: [u8; 256] = s_box_table();

const fn s_box_table() -> [u8; 256] {
    let mut table = [0; 256];
    let (mut p, mut q) = (1u8, 1u8);
    loop {
        p ^= (p << 1) ^ ((p >> 7) * 0x1b);
        q ^= q << 1;
        q ^= q << 2;
        q ^= q << 4;
        q ^= (q >> 7) * 0x09;
        table[p as usize] = 0x63
            ^ q
            ^ q.rotate_left(1)
            ^ q.rotate_left(2)
            ^ q.rotate_left(3)
            ^ q.rotate_left(4);
        if p == 1 {
            break;
        }
    }
    table[0] = 0x63;
    table
}

fn sub_word(word: &mut [u8; 4]) {
    for byte in word {
        *byte = S_BOX[*byte as usize];
    }
''')],
  body="""cargo build -q --offline --release || exit 2
for i in 10 21 32 43; do
  valgrind --tool=lackey --trace-mem=yes ./target/release/demo $i > addr 2> all || exit 2
  # what happens between the two stores to the marker
  awk -v a="$(cat addr)" '/^( [LSM]|I)/ { if ($1 == "M" && tolower($2) ~ "^0*" a ",8$") { n++; next } if (n == 1) print }' all > t.$i
  [ "$(wc -l < t.$i)" -gt 100 ] || exit 2
done
# the address sequences must not depend on the key
r=0
for i in 21 32 43; do cmp t.10 t.$i || r=1; done
exit $r""",
  demo=r'''
use crypto_pure::aes::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static MARK: AtomicU64 = AtomicU64::new(0);
fn main() {
    let a = std::env::args().nth(1).unwrap();
    let mut k = [0u8; 16];
    let b = a.as_bytes();
    for i in 0..16 { k[i] = b[i & 1].wrapping_mul(37).wrapping_add(i as u8 * 11) }
    let k = std::hint::black_box(k);
    MARK.store(1, SeqCst);
    let c = Aes128::new(&k);
    MARK.store(2, SeqCst);
    std::hint::black_box(&c);
    print!("{:x}", MARK.as_ptr() as usize);
}
''')

seed(id="b28-select-branch", property="C20",
  needs="observing the instructions executed during Ed25519 signing or key generation",
  breaks="the table entry is negated under a branch on the sign of a secret scalar digit",
  edits=[("src/ed25519.rs", "    minust.yplusx = t.yminusx;\n    minust.yminusx = t.yplusx;\n    minust.xy2d.assign_neg(&t.xy2d);\n    cmov(t, &minust, bnegative);", "    if bnegative != 0 {\n        minust.yplusx = t.yminusx;\n        minust.yminusx = t.yplusx;\n        minust.xy2d.assign_neg(&t.xy2d);\n        cmov(t, &minust, bnegative);\n    }")],
  body="""cargo build -q --offline --release || exit 2
for i in $(seq 10 18); do
  valgrind --tool=callgrind --callgrind-out-file=/dev/null --toggle-collect='*probe*' ./target/release/demo $i 2>&1 | grep Collected | sed 's/.*Collected/Collected/' >> all
done
[ -s all ] || exit 2
sort all | uniq -c
[ "$(sort -u all | wc -l)" = 1 ]""",
  rel="debug = 1",
  demo=r'''
#[no_mangle]
#[inline(never)]
pub extern "C" fn probe_pk(k: &[u8; 32]) -> u8 { crypto_pure::ed25519::gen_pk(k)[0] }
fn main() {
    let i: u8 = std::env::args().nth(1).unwrap().parse().unwrap();
    std::hint::black_box(probe_pk(std::hint::black_box(&[i; 32])));
}
''')

seed(id="b29-chachapoly-counter16", property="C21",
  needs="a ChaCha20-Poly1305 message of 4 MiB or more",
  breaks="the block counter is cut to 16 bits, so keystream repeats and the block that derives the authentication key is used to encrypt",
  edits=[("src/poly1305.rs", "            let block = cipher.block(i);", "            let block = cipher.block(u32::from(i as u16));")],
  demo=r'''
use crypto_pure::{gcm::AeadCipher, poly1305::*};
fn main() {
    let z = vec![0; (1 << 22) + 64];
    let mut c = z.clone();
    ChaCha20Poly1305::new(&[3; 32]).encrypt(&z, &[7; 12], b"", &mut c);
    assert_ne!(c[..64], c[1 << 22..]);
    let first: Vec<u8> = crypto_pure::chacha20::Stream::new(&[3; 32], &[7; 12]).take(64).collect();
    assert!(c.chunks(64).all(|b| b != first));
}
''')

seed(id="b30-stream-bulk", property="C08",
  needs="a fresh Stream whose first call processes 64 bytes or more",
  breaks="the whole-block path treats a fresh stream like one that has used up its block, so the first block is skipped",
  edits=[("src/chacha20.rs", "        for (x, (y, z)) in output.iter_mut().zip(self.take(input.len()).zip(input)) {", '''        let (mut input, mut output) = (input, output);
        while self.block_index % 64 == 0 && input.len() >= 64 {
            self.counter += 1; // could overflow
            self.block = self.chacha20.block(self.counter);
            self.block_index = 64;
            for (x, (y, z)) in output.iter_mut().zip(self.block.iter().zip(input)) {
                *x = y ^ z;
            }
            input = &input[64..];
            output = &mut output[64..];
        }
        for (x, (y, z)) in output.iter_mut().zip(self.take(input.len()).zip(input)) {''')],
  demo=r'''
use crypto_pure::chacha20::Stream;
fn main() {
    for n in [1, 63, 64, 65, 128, 200] {
        let v: Vec<u8> = Stream::new(&[1; 32], &[2; 12]).take(n).collect();
        let mut o = vec![0; n];
        Stream::new(&[1; 32], &[2; 12]).encrypt(&vec![0; n], &mut o);
        assert_eq!(v, o, "{n}");
    }
}
''')

