import re
from seeds_def import seed, HEX

CALLGRIND = """cargo build -q --offline%s || exit 2
for i in %s; do
  valgrind --tool=callgrind --callgrind-out-file=/dev/null --toggle-collect='*probe*' ./target/%s/demo $i 2>&1 | grep Collected | sed 's/.*Collected/Collected/' >> all
done
[ -s all ] || exit 2
sort all | uniq -c
[ "$(sort -u all | wc -l)" = 1 ]"""

seed(id="b31-ghash-zero-skip", property="C20",
  needs="a GHASH argument that is zero, for example associated data starting with a zero block",
  breaks="the multiplication is skipped when the accumulator is zero, so the number of instructions shows when accumulator and ciphertext coincide",
  edits=[("src/ghash.rs", "        let mut x = self.state;\n        let mut v", "        if self.state == 0 {\n            return;\n        }\n        let mut x = self.state;\n        let mut v")],
  body=CALLGRIND % (" --release", "0 1 2", "release"), rel="debug = 1",
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
#[no_mangle]
#[inline(never)]
pub extern "C" fn probe_gcm(g: &Gcm<Aes128>, m: &[u8; 64], out: &mut [u8; 64]) { g.encrypt(m, &[7; 12], &[], out); }
fn main() {
    let i: u8 = std::env::args().nth(1).unwrap().parse().unwrap();
    let g = Gcm::<Aes128>::new(&[9; 16]);
    let mut k = [0; 64];
    g.encrypt(&[0; 64], &[7; 12], &[], &mut k);
    // messages that encrypt to 0.. or to something else
    let mut m = k;
    m[0] ^= i;
    probe_gcm(&g, std::hint::black_box(&m), &mut k);
}
''')

seed(id="b32-ghash-bit-branch", property="C20",
  needs="observing the instructions of an unoptimised build (or one whose optimiser keeps the branches) while GCM authenticates data",
  breaks="the GHASH multiplication branches on the bits of its arguments instead of masking",
  edits=[("src/ghash.rs", """            let mut h = x & (1 << 127);
            let mut m = (h as i128 >> 127) as u128;
            self.state ^= v & m;
            h = v << 127;
            m = (h as i128 >> 127) as u128;
            v >>= 1;
            v ^= R0 & m;
""", """            if x >> 127 == 1 {
                self.state ^= v;
            }
            let h = v & 1;
            v >>= 1;
            v ^= R0 * h;
""")],
  body=CALLGRIND % ("", "0 1 2", "debug"),
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
#[no_mangle]
#[inline(never)]
pub extern "C" fn probe_gcm(g: &Gcm<Aes128>, m: &[u8; 64], out: &mut [u8; 64]) { g.encrypt(m, &[7; 12], &[], out); }
fn main() {
    let i: u8 = std::env::args().nth(1).unwrap().parse().unwrap();
    let g = Gcm::<Aes128>::new(&[9; 16]);
    let mut k = [0; 64];
    probe_gcm(&g, std::hint::black_box(&[i; 64]), &mut k);
}
''')

seed(id="b33-xtime-branch", property="C20",
  needs="observing the instructions of an unoptimised build while AES runs",
  breaks="doubling in GF(2^8) branches on the top bit of a secret state byte",
  edits=[("src/aes.rs", "    let h = (byte as i8 >> 7) as u8;\n    (byte << 1) ^ (0x1b & h)", "    let mut double = byte << 1;\n    if byte & 0x80 != 0 {\n        double ^= 0x1b;\n    }\n    double")],
  body=CALLGRIND % ("", "0 1 2 3", "debug"),
  demo=r'''
use crypto_pure::aes::*;
#[no_mangle]
#[inline(never)]
pub extern "C" fn probe_aes(g: &Aes128, m: &[u8; 16]) -> u8 { g.permute(m)[0] }
fn main() {
    let i: u8 = std::env::args().nth(1).unwrap().parse().unwrap();
    std::hint::black_box(probe_aes(&Aes128::new(&[9; 16]), std::hint::black_box(&[i; 16])));
}
''')

def base_entry(pos, digit, k, l, delta):
    def f(s):
        i = s.index("BASE:")
        ms = list(re.finditer(r"-?\d+", s[s.index("= [", i):]))
        m = ms[((pos * 8 + digit - 1) * 3 + k) * 10 + l]
        o = s.index("= [", i)
        return s[:o + m.start()] + str(int(m.group()) + delta) + s[o + m.end():]
    return f

seed(id="b34-base-entry", property="C14",
  needs="a secret key, nonce or key pair whose recoded scalar has the digit 7 or -7 at position 22 or 23, which selects one entry of the base point table",
  breaks="one limb of one entry of the base point table is off by one",
  edits=[("src/const_curve25519.rs", base_entry(11, 7, 1, 3, 1), None)],
  demo=r'''
use crypto_pure::ed25519::*;
fn main() {
    for i in 0..64u8 {
        let k = [i; 32];
        let pk = gen_pk(&k);
        let s = sign(b"message", &k);
        assert!(verify(b"message", &s, &pk), "{i}");
    }
}
''')

seed(id="b35-lockout", property="C18",
  needs="more than 2^15 rejected ciphertexts in one process, then a genuine one",
  breaks="after 2^15 failed decryptions anywhere in the process GCM refuses everything, genuine ciphertexts of other keys included",
  edits=[("src/gcm.rs", "        if util::verify_16(&expected_tag, tag) {", "        let failures = FAILURES.load(Ordering::Relaxed);\n        if util::verify_16(&expected_tag, tag) && failures < MAX_FAILURES {"),
         ("src/gcm.rs", "            true\n        } else {\n            false\n", "            true\n        } else {\n            FAILURES.store(failures.saturating_add(1), Ordering::Relaxed);\n            false\n"),
         ("src/gcm.rs", "struct Processor<E> {", "/// NIST SP 800-38D limits the number of failed verifications.\nconst MAX_FAILURES: u32 = 1 << 15;\nstatic FAILURES: AtomicU32 = AtomicU32::new(0);\n\nstruct Processor<E> {"),
         ("src/gcm.rs", "use byteorder::{BigEndian, ByteOrder as _};\n", "use byteorder::{BigEndian, ByteOrder as _};\nuse core::sync::atomic::{AtomicU32, Ordering};\n")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    let g = Gcm::<Aes128>::new(&[1; 16]);
    let mut c = [0; 5];
    let t = g.encrypt(b"hello", &[2; 12], b"", &mut c);
    let mut p = [0; 5];
    for i in 0..40000u32 {
        let mut u = t;
        u[i as usize % 16] ^= 1;
        assert!(!g.decrypt(&c, &[2; 12], b"", &u, &mut p));
    }
    let h = Gcm::<Aes256>::new(&[1; 32]);
    let t = h.encrypt(b"hello", &[2; 12], b"", &mut c);
    assert!(h.decrypt(&c, &[2; 12], b"", &t, &mut p));
}
''')

seed(id="b36-late-check", property="C17",
  needs="a decryption with an output buffer of the wrong length and a tag that does not match",
  breaks="the lengths are checked only once the tag has been verified, so a wrong output length is not reported when the tag is wrong",
  edits=[("src/gcm.rs", "        check_bounds(output, input, nonce, data);\n        let counter", "        let counter"),
         ("src/gcm.rs", "        if util::verify_16(&expected_tag, tag) {\n", "        if util::verify_16(&expected_tag, tag) {\n            check_bounds(output, input, nonce, data);\n")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
use std::panic::*;
fn main() {
    set_hook(Box::new(|_| {}));
    let g = Gcm::<Aes128>::new(&[1; 16]);
    for n in [0, 4, 6, 21] {
        let mut p = vec![0; n];
        assert!(catch_unwind(AssertUnwindSafe(|| g.decrypt(b"hello", &[2; 12], b"", &[0; 16], &mut p))).is_err(), "{n}");
    }
}
''')

seed(id="b37-top-digit", property="C14",
  needs="a secret key whose clamped scalar starts with 0x78 to 0x7f, so that the recoded top digit is +8",
  breaks="the signed digits of the scalar are kept as four-bit two's complement, which turns the top digit +8 into -8",
  edits=[("src/ed25519.rs", "        e[63] += carry;\n", "        e[63] += carry;\n        // the digits are four-bit two's complement numbers\n        for e_i in e.iter_mut() {\n            *e_i = (*e_i << 4) >> 4;\n        }\n")],
  demo=r'''
use crypto_pure::ed25519::*;
fn main() {
    for i in 0..200u8 {
        let k = [i; 32];
        let pk = gen_pk(&k);
        let s = sign(b"message", &k);
        assert!(verify(b"message", &s, &pk), "{i}");
    }
}
''')

seed(id="b38-debug-assert-len", property="C19",
  needs="a build without debug assertions that hashes a message in more than one update",
  breaks="the length is updated inside a debug assertion when the input is buffered only, so release builds lose it",
  edits=[("src/sha2.rs", "                self.len += input.len() as u64;\n                let mut input_offset", "                let total = self.len.wrapping_add(input.len() as u64);\n                debug_assert!({\n                    self.len = total.max(self.len);\n                    self.len == total\n                });\n                let mut input_offset"),
         ("src/sha2.rs", "                    if input.len() < buffer_space {\n", "                    if input.len() < buffer_space {\n                        self.len = total;\n"),
         ("src/sha2.rs", "                for chunk in input[input_offset..].chunks(self.buffer.len()) {\n", "                if input.len() < usize::pow(2, 17) {\n                    self.len = total;\n                }\n                for chunk in input[input_offset..].chunks(self.buffer.len()) {\n")],
  mode="both",
  demo=HEX + r'''
use crypto_pure::sha2::*;
fn main() {
    for n in [0usize, 100, 1000, 131071, 131072, 131073, 200000] { println!("{}", hex(&sha256(&vec![1; n]))) }
}
''')

seed(id="b39-plaintext-wiped", property="C11",
  needs="a forged ciphertext, and a caller that looks at the output buffer after the rejection",
  breaks="decryption works in one pass and wipes the output if the tag turns out wrong, so the buffer is changed by a rejected message",
  edits=[("src/gcm.rs", "        if util::verify_16(&expected_tag, tag) {\n            self.0.process(counter, input, output);\n            true\n        } else {\n            false\n        }", "        self.0.process(counter, input, output);\n        let valid = util::verify_16(&expected_tag, tag);\n        if !valid {\n            output.iter_mut().for_each(|x| *x = 0);\n        }\n        valid")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    let g = Gcm::<Aes128>::new(&[1; 16]);
    let mut p = [0xaa; 5];
    assert!(!g.decrypt(b"hello", &[2; 12], b"", &[0; 16], &mut p));
    assert_eq!(p, [0xaa; 5]);
}
''')

seed(id="b40-poly1305-len32", property="C09",
  needs="more than 4 GiB of associated data",
  breaks="the length of the associated data is kept in 32 bits, so the tag is wrong for more than 4 GiB of it",
  edits=[("src/poly1305.rs", "            data_len: data.len() as u64,", "            data_len: data.len() as u32,"),
         ("src/poly1305.rs", "    data_len: u64,", "    data_len: u32,"),
         ("src/poly1305.rs", "self.data_len);", "u64::from(self.data_len));")],
  demo=r'''
use crypto_pure::{chacha20::Stream, gcm::AeadCipher, poly1305::ChaCha20Poly1305};
// Poly1305 with five limbs of 26 bits
type F = [u64; 5];
fn mul(a: &F, b: &F) -> F {
    let mut r = [0u64; 5];
    for i in 0..5 { for j in 0..5 { let x = a[i] * b[j]; if i + j < 5 { r[i + j] += x } else { r[i + j - 5] += 5 * x } } }
    let mut c = 0;
    for _ in 0..2 { for i in 0..5 { r[i] += c; c = r[i] >> 26; r[i] &= (1 << 26) - 1; } c *= 5; }
    r[0] += c;
    r
}
fn load(b: &[u8; 16], hi: u64) -> F {
    let x = u128::from_le_bytes(*b);
    let m = (1 << 26) - 1;
    [x as u64 & m, (x >> 26) as u64 & m, (x >> 52) as u64 & m, (x >> 78) as u64 & m, (x >> 104) as u64 + (hi << 24)]
}
fn main() {
    let (key, nonce) = ([5; 32], [6; 12]);
    let n = (1usize << 32) + 16;
    let zeros = vec![0u8; n];
    let tag = ChaCha20Poly1305::new(&key).encrypt(b"", &nonce, &zeros, &mut []);
    let k: Vec<u8> = Stream::new(&key, &nonce).take(32).collect();
    let mut r: [u8; 16] = k[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] { r[i] &= 15 }
    for i in [4, 8, 12] { r[i] &= 252 }
    let r = load(&r, 0);
    let mut h = [0; 5];
    let add = |h: &mut F, b: &[u8; 16]| { let b = load(b, 1); for i in 0..5 { h[i] += b[i] } *h = mul(h, &r); };
    for _ in 0..n / 16 { add(&mut h, &[0; 16]) }
    let mut l = [0; 16];
    l[..8].copy_from_slice(&(n as u64).to_le_bytes());
    add(&mut h, &l);
    // reduce fully, twice by subtraction
    let mut c = 0;
    for _ in 0..3 { for i in 0..5 { h[i] += c; c = h[i] >> 26; h[i] &= (1 << 26) - 1; } c *= 5; }
    h[0] += c;
    let mut g = h;
    let mut c = 5;
    for i in 0..5 { g[i] += c; c = g[i] >> 26; g[i] &= (1 << 26) - 1; }
    if c > 0 { h = g }
    let x = (0..5).fold(0u128, |a, i| a.wrapping_add((h[i] as u128) << (26 * i)));
    let x = x.wrapping_add(u128::from_le_bytes(k[16..].try_into().unwrap()));
    assert_eq!(x.to_le_bytes(), tag);
}
''')

seed(id="b41-ghash-bits32", property="C07",
  needs="512 MiB or more of associated data",
  breaks="the bit length of the associated data is computed in 32 bits",
  edits=[("src/ghash.rs", "            data_len: data.len() as u64,", "            data_len: data.len() as u32,"),
         ("src/ghash.rs", "    data_len: u64,", "    data_len: u32,"),
         ("src/ghash.rs", "8 * self.data_len);", "u64::from(self.data_len.wrapping_mul(8)));")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
// A block cipher that is constant: the hash key is H = 1 (in GHASH order), so GHASH is the sum of the blocks.
struct One;
impl BlockCipher for One {
    fn new(_: &[u8]) -> Self { One }
    fn permute(&self, x: &[u8; 16]) -> [u8; 16] { let mut o = [0; 16]; if x == &[0; 16] { o[0] = 0x80 } o }
}
fn main() {
    for n in [0usize, 16, 1 << 20, (1 << 29) - 16, 1 << 29, (1 << 29) + 16] {
        let tag = Gcm::<One>::new(&[]).encrypt(b"", &[1; 12], &vec![0; n], &mut []);
        let mut want = [0; 16];
        want[..8].copy_from_slice(&(8 * n as u64).to_be_bytes());
        assert_eq!(tag, want, "{n}");
    }
}
''')

seed(id="b42-hmac-key-u16", property="C03",
  needs="an HMAC key of 65536 bytes or a little more",
  breaks="the key length is compared with the block size after being cut to 16 bits, so a key of 2^16 + n bytes is not hashed first",
  edits=[("src/hmac.rs", "if key.len() > H::BLOCK_SIZE {", "if key.len() as u16 > H::BLOCK_SIZE as u16 {")],
  demo=r'''
use crypto_pure::{hmac::*, sha2::*};
fn main() {
    for n in [63, 64, 65, 1000, 65535, 65536, 65600, 65601] {
        let k = vec![7; n];
        let short = if n > 64 { sha256(&k).to_vec() } else { k.clone() };
        assert_eq!(hmac_sha256(&k, b"m"), hmac_sha256(&short, b"m"), "{n}");
    }
}
''')

seed(id="b43-stream-nth", property="C08",
  needs="skipping bytes (nth, skip, step_by) to exactly the end of a keystream block",
  breaks="the block is not refilled when the skip ends on a block boundary in a later block, so the byte returned and all later ones are of the wrong block",
  edits=[("src/chacha20.rs", "        self.block_index += 1;\n        Some(byte)\n    }\n", '''        self.block_index += 1;
        Some(byte)
    }

    fn nth(&mut self, n: usize) -> Option<u8> {
        let position = self.block_index as usize + n;
        if position > 64 {
            self.counter += ((position - 1) / 64) as u32; // could overflow
            self.block = self.chacha20.block(self.counter);
            self.block_index = (position % 64) as u8;
        } else {
            self.block_index = position as u8;
        }
        self.next()
    }
''')],
  demo=r'''
use crypto_pure::chacha20::Stream;
fn main() {
    let v: Vec<u8> = Stream::new(&[1; 32], &[2; 12]).take(1000).collect();
    for a in [0, 1, 63, 64] { for n in 0..500 {
        let mut s = Stream::new(&[1; 32], &[2; 12]);
        for _ in 0..a { s.next(); }
        assert_eq!(s.nth(n), Some(v[a + n]), "{a} {n}");
        assert_eq!(s.next(), Some(v[a + n + 1]), "{a} {n}");
    } }
}
''')

seed(id="b44-compare-u128", property="C23",
  needs="two arrays whose little-endian difference is a multiple of 2^64",
  breaks="the sixteen bytes are compared as one number, but only the low half of the difference is looked at for differences in one half",
  edits=[("src/util.rs", "    x.len() == y.len() && verify_inner(x, y) == 0\n", '''    if x.len() != y.len() {
        return false;
    }
    let mut z = [0; 16];
    z.copy_from_slice(y);
    let difference = u128::from_le_bytes(*x).wrapping_sub(u128::from_le_bytes(z));
    // both halves of the difference are folded into one word
    (difference as u64).wrapping_add((difference >> 64) as u64) == 0
''')],
  demo=r'''
use crypto_pure::util::verify_16;
fn main() {
    let mut y = [0; 16];
    assert!(verify_16(&[0; 16], &y));
    y[0] = 1;
    y[8] = 0xff;
    for b in y[9..].iter_mut() { *b = 0xff }
    // the difference is -(2^128 - 2^64 + 1): folds to 0 or not
    for lo in 0..=255u8 { for hi in 0..=255u8 {
        let mut y = [0; 16];
        y[0] = lo;
        y[8..].fill(255);
        y[8] = hi;
        assert!(!verify_16(&[0; 16], &y), "{lo} {hi}");
    } }
}
''')

SBOX = []
def sbox():
    if SBOX: return SBOX
    def mul(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            a = a << 1 ^ (0x11b if a & 0x80 else 0)
            b >>= 1
        return r
    for x in range(256):
        i = next((y for y in range(256) if mul(x, y) == 1), 0)
        r = 0x63
        for k in range(5): r ^= (i << k | i >> (8 - k)) & 255
        SBOX.append(r)
    return SBOX

def sub_word_table(entry, value):
    def f(s):
        t = list(sbox())
        t[entry] = value
        rows = "\n".join("    " + ", ".join(f"0x{x:02x}" for x in t[i:i + 12]) + "," for i in range(0, 256, 12))
        s = s.replace("fn sub_word(word: &mut [u8; 4]) {\n    for byte in word {\n        *byte = s_box(*byte);\n", "fn sub_word(word: &mut [u8; 4]) {\n    for byte in word {\n        *byte = SUB_WORD[*byte as usize];\n")
        return s.replace("fn sub_word(", "/// The S-box for the key schedule\nconst SUB_WORD: [u8; 256] = [\n" + rows + "\n];\n\nfn sub_word(")
    return f

seed(id="b45-sub-word-entry", property="C06",
  needs="a key whose schedule looks up the byte 0x33 in SubWord",
  breaks="the key schedule has a table of its own for the S-box, in which two digits of one entry are swapped",
  edits=[("src/aes.rs", sub_word_table(0x33, 0x3c), None)],
  demo=r'''
use crypto_pure::aes::*;
fn main() {
    // AES-128 of the zero block under the keys 0^12 b^4, folded over all b
    let mut f = [0u8; 16];
    for b in 0..=255u8 {
        let mut k = [0; 16];
        k[12..].fill(b);
        for (i, x) in Aes128::new(&k).permute(&[0; 16]).iter().enumerate() { f[i] = f[i].rotate_left(1) ^ x }
    }
    assert_eq!(f, EXPECTED);
}
const EXPECTED: [u8; 16] = [91, 96, 8, 164, 82, 255, 62, 222, 53, 158, 126, 246, 72, 239, 200, 97];
''')

seed(id="b46-ghash-message-bits32", property="C07",
  needs="a message of 512 MiB or more",
  breaks="the bit length of the ciphertext is accumulated in 32 bits",
  edits=[("src/ghash.rs", "        self.ciphertext_len += input.len() as u64;", "        self.ciphertext_bits = self.ciphertext_bits.wrapping_add(8 * input.len() as u32);"),
         ("src/ghash.rs", "            ciphertext_len: 0,", "            ciphertext_bits: 0,"),
         ("src/ghash.rs", "    ciphertext_len: u64,", "    ciphertext_bits: u32,"),
         ("src/ghash.rs", "8 * self.ciphertext_len);", "u64::from(self.ciphertext_bits));")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
// A block cipher whose hash key is H = 1 (in GHASH order) and which is zero elsewhere, so GHASH is the sum of the blocks.
struct One;
impl BlockCipher for One {
    fn new(_: &[u8]) -> Self { One }
    fn permute(&self, x: &[u8; 16]) -> [u8; 16] { let mut o = [0; 16]; if x == &[0; 16] { o[0] = 0x80 } o }
}
fn main() {
    let mut out = vec![0; (1 << 29) + 16];
    for n in [0usize, 16, 1 << 20, (1 << 29) - 16, 1 << 29, (1 << 29) + 16] {
        let tag = Gcm::<One>::new(&[]).encrypt(&vec![0; n], &[1; 12], b"", &mut out[..n]);
        let mut want = [0; 16];
        want[8..].copy_from_slice(&(8 * n as u64).to_be_bytes());
        assert_eq!(tag, want, "{n}");
    }
}
''')

seed(id="b47-stream-position32", property="C08",
  needs="more than 4 GiB of keystream from one stream",
  breaks="the stream keeps its byte position in 32 bits, so the keystream starts again after 2^32 bytes instead of 2^38",
  edits=[("src/chacha20.rs", "    counter: u32,\n    block: [u8; 64],\n    block_index: u8,\n}\n", "    block: [u8; 64],\n    position: u32,\n}\n"),
         ("src/chacha20.rs", "            counter: 0,\n            block,\n            block_index: 0,\n", "            block,\n            position: 0,\n"),
         ("src/chacha20.rs", """        if self.block_index == 64 {
            self.counter += 1; // could overflow
            self.block = self.chacha20.block(self.counter);
            self.block_index = 0;
        }
        let byte = self.block[self.block_index as usize];
        self.block_index += 1;
""", """        let index = self.position % 64;
        if index == 0 {
            self.block = self.chacha20.block(self.position / 64);
        }
        let byte = self.block[index as usize];
        self.position = self.position.wrapping_add(1); // could overflow
""")],
  demo=r'''
use crypto_pure::chacha20::Stream;
fn main() {
    let mut s = Stream::new(&[1; 32], &[2; 12]);
    let z = vec![0; 1 << 20];
    let mut first = z.clone();
    s.encrypt(&z, &mut first);
    let mut o = z.clone();
    for _ in 0..4097 {
        s.encrypt(&z, &mut o);
        assert!(o != first);
    }
}
''')
