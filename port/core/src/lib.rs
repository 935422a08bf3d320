//! C27: enumerated executions of the library whose outcome must not depend on the machine they run on. The same cases are run
//! natively (64-bit, little-endian), as WebAssembly (32-bit, no standard library) and interpreted for big-endian machines; what each
//! case outputs is reduced to a hash that the runs are compared by. A case that panics must panic everywhere.
#![no_std]
extern crate alloc;
use alloc::{boxed::Box, format, string::String, vec, vec::Vec};
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{self, HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{curve25519, ed25519, hkdf, util};

/// What a case produced.
pub struct Out { pub h: u64, pub n: u64, pub head: Vec<u8>, pub text: String, say: bool }
impl Out {
    pub fn new(say: bool) -> Self { Out { h: 0x9e3779b97f4a7c15, n: 0, head: vec![], text: String::new(), say } }
    pub fn put(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = 0u64;
            for (i, &x) in c.iter().enumerate() { w |= (x as u64) << (8 * i) }
            self.h = (self.h ^ w).wrapping_mul(0xff51afd7ed558ccd);
            self.h ^= self.h >> 29;
        }
        self.h = (self.h ^ b.len() as u64).wrapping_mul(0xc4ceb9fe1a85ec53);
        self.n += b.len() as u64;
        if self.say && self.head.len() < 160 { self.head.extend_from_slice(&b[..b.len().min(160)]) }
    }
    pub fn flag(&mut self, b: bool) { self.put(&[b as u8]) }
    /// The description of the case (kept only when asked for).
    pub fn say(&mut self, f: impl FnOnce() -> String) { if self.say { self.text = f() } }
}
/// 0: interpreted, quick. 1: interpreted, thorough. 2: the compiled 32-bit build, quick. 3: the compiled build, thorough.
pub type Level = u32;
pub struct Fam { pub name: &'static str, pub bounds: String, pub cases: u64, pub run: Box<dyn Fn(u64, &mut Out) + Send + Sync> }
fn fam(name: &'static str, bounds: String, cases: u64, run: impl Fn(u64, &mut Out) + Send + Sync + 'static) -> Fam { Fam { name, bounds, cases, run: Box::new(run) } }

pub fn mix(seed: u64, n: usize) -> Vec<u8> {
    let mut z = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        z = z.wrapping_add(0x9e3779b97f4a7c15);
        let mut x = z;
        x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
        v.extend_from_slice(&(x ^ (x >> 31)).to_le_bytes());
    }
    v.truncate(n);
    v
}
fn bit(mut v: Vec<u8>, i: u64) -> Vec<u8> { v[(i / 8) as usize] ^= 1 << (i % 8); v }
pub fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b.iter().take(80) { s.push_str(&format!("{x:02x}")) } if b.len() > 80 { s.push_str(&format!(".. ({} bytes)", b.len())) } s }

// ------------------------------------------------------------------ user types
#[derive(Clone)]
struct Toy { s: u64, n: u64 }
impl Default for Toy { fn default() -> Self { Toy { s: 5, n: 0 } } }
impl HashFunction for Toy {
    const DIGEST_SIZE: usize = 21;
    const BLOCK_SIZE: usize = 37;
    fn update(&mut self, m: &[u8]) { for &b in m { self.s = (self.s ^ (b as u64 + 1)).wrapping_mul(0xd6e8feb86659fd93).rotate_left(23); self.n += 1 } }
    fn write_digest(self, o: &mut [u8]) { o.copy_from_slice(&mix(self.s ^ self.n, 21)) }
}
struct Xor([u8; 16]);
impl BlockCipher for Xor {
    fn new(k: &[u8]) -> Self { let mut x = [0; 16]; x.copy_from_slice(&k[..16]); Xor(x) }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] { let mut o = *b; for i in 0..16 { o[i] = (o[i] ^ self.0[i]).wrapping_mul(167).wrapping_add(i as u8) } o.rotate_left(5); o }
}

// ------------------------------------------------------------------ hashes
fn digest<H: HashFunction>(parts: &[&[u8]]) -> Vec<u8> { let mut x = H::default(); for p in parts { x.update(p) } let mut o = vec![0xa5; H::DIGEST_SIZE]; x.write_digest(&mut o); o }
macro_rules! by_hash { ($i:expr, $h:ident, $e:expr) => { match $i { 0 => { type $h = Sha224; $e } 1 => { type $h = Sha256; $e } 2 => { type $h = Sha384; $e } 3 => { type $h = Sha512; $e } _ => { type $h = Toy; $e } } } }
fn hash_name(i: u64) -> &'static str { ["SHA-224", "SHA-256", "SHA-384", "SHA-512", "a user's hash"][i as usize] }
fn wrapper(i: u64, m: &[u8]) -> Vec<u8> { match i { 0 => sha2::sha224(m).to_vec(), 1 => sha2::sha256(m).to_vec(), 2 => sha2::sha384(m).to_vec(), _ => sha2::sha512(m).to_vec() } }
fn mac_wrapper(i: u64, k: &[u8], m: &[u8]) -> Vec<u8> { match i { 0 => hmac::hmac_sha224(k, m).to_vec(), 1 => hmac::hmac_sha256(k, m).to_vec(), 2 => hmac::hmac_sha384(k, m).to_vec(), _ => hmac::hmac_sha512(k, m).to_vec() } }
fn tag<H: HashFunction>(key: &[u8], parts: &[&[u8]]) -> Vec<u8> { let mut x = Hmac::<H>::new(key); for p in parts { x.update(p) } x.tag().to_vec() }
fn do_hmac<H: HashFunction>(key: &[u8], m: &[u8], cut: usize, o: &mut Out) {
    let t = tag::<H>(key, &[&m[..cut], &m[cut..]]);
    o.put(&t);
    o.flag(hmac::verify::<H>(key, m, &t));
    let mut b = t.clone();
    let at = m.len() % b.len();
    b[at] ^= 1 << (m.len() % 8);
    o.flag(hmac::verify::<H>(key, m, &b));
    o.flag(hmac::verify::<H>(key, m, &t[..t.len() - 1]));
}

// ------------------------------------------------------------------ AEADs
fn aead<A: AeadCipher>(key: &[u8], n: &[u8], a: &[u8], m: &[u8], o: &mut Out) {
    let c = A::new(key);
    let mut ct = vec![0x5a; m.len()];
    let t = c.encrypt(m, n, a, &mut ct);
    o.put(&ct);
    o.put(&t);
    let mut back = vec![0x3c; m.len()];
    o.flag(c.decrypt(&ct, n, a, &t, &mut back));
    o.put(&back);
    let mut bad = t;
    bad[(m.len() + a.len()) % 16] ^= 1 << (m.len() % 8);
    let mut keep = vec![0x28; m.len()];
    o.flag(c.decrypt(&ct, n, a, &bad, &mut keep));
    o.flag(c.decrypt(&ct, n, a, &t[..15], &mut keep));
    o.put(&keep);
}
macro_rules! by_aead { ($i:expr, $a:ident, $e:expr) => { match $i { 0 => { type $a = Gcm<Aes128>; $e } 1 => { type $a = Gcm<Aes192>; $e } 2 => { type $a = Gcm<Aes256>; $e } 3 => { type $a = ChaCha20Poly1305; $e } _ => { type $a = Gcm<Xor>; $e } } } }
const KEYLEN: [usize; 5] = [16, 24, 32, 32, 16];
fn aead_name(i: u64) -> &'static str { ["AES-128-GCM", "AES-192-GCM", "AES-256-GCM", "ChaCha20-Poly1305", "GCM over a user's cipher"][i as usize] }
fn aes(k: &[u8], b: &[u8; 16]) -> [u8; 16] { match k.len() { 16 => Aes128::new(k).permute(b), 24 => Aes192::new(k).permute(b), _ => Aes256::new(k).permute(b) } }
fn arr(v: &[u8]) -> [u8; 16] { let mut a = [0; 16]; a.copy_from_slice(v); a }

// ------------------------------------------------------------------ special values
/// u-coordinates: low order, non-canonical, all limbs full, single bits.
fn point(i: u64) -> Vec<u8> {
    let p = { let mut v = vec![0xff; 32]; v[0] = 0xed; v[31] = 0x7f; v };
    let small = |x: u8| { let mut v = vec![0; 32]; v[0] = x; v };
    match i {
        0 => small(0), 1 => small(1), 2 => small(9), 3 => p.clone(),
        4 => { let mut v = p; v[0] = 0xec; v } 5 => { let mut v = p; v[0] = 0xee; v } 6 => vec![0xff; 32],
        7 => { let mut v = small(9); v[31] = 0x80; v }
        8 => vec![0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00],
        9 => vec![0x55; 32], 10 => vec![0xaa; 32], 11 => { let mut v = vec![0xff; 32]; v[31] = 0x7f; v },
        _ => mix(900 + i, 32),
    }
}
const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
fn add_le(a: &mut [u8], b: &[u8]) { let mut c = 0u16; for i in 0..a.len() { c += a[i] as u16 + b[i] as u16; a[i] = c as u8; c >>= 8 } }

// ------------------------------------------------------------------ misuse
/// One call with lengths of which some are not allowed; `l` runs over the lengths.
fn misuse(op: u64, l: usize, o: &mut Out) {
    let z = vec![7u8; l];
    let out = &mut vec![1u8; l][..];
    match op {
        0 => { Aes128::new(&z); } 1 => { Aes192::new(&z); } 2 => { Aes256::new(&z); }
        3 => { Gcm::<Aes128>::new(&z); } 4 => { ChaCha20Poly1305::new(&z); }
        5 => { Gcm::<Aes256>::new(&[1; 32]).encrypt(&[], &z, &[], &mut []); }
        6 => { Gcm::<Aes256>::new(&[1; 32]).encrypt(&[2; 17], &[3; 12], &[], out); }
        7 => { Gcm::<Aes256>::new(&[1; 32]).decrypt(&[2; 17], &[3; 12], &[], &[4; 16], out); }
        8 => { ChaCha20Poly1305::new(&[1; 32]).encrypt(&[], &z, &[], &mut []); }
        9 => { ChaCha20Poly1305::new(&[1; 32]).encrypt(&[2; 17], &[3; 12], &[], out); }
        10 => { ChaCha20Poly1305::new(&[1; 32]).decrypt(&[2; 17], &[3; 12], &[], &[4; 16], out); }
        11 => { Stream::new(&z, &[1; 12]); } 12 => { Stream::new(&[1; 32], &z); }
        13 => { Stream::new(&[1; 32], &[2; 12]).encrypt(&[3; 17], out); }
        14 => { curve25519::gen_pk(&z); } 15 => { curve25519::dh(&z, &[1; 32]); } 16 => { curve25519::dh(&[9; 32], &z); }
        17 => { ed25519::gen_pk(&z); } 18 => { ed25519::sign(b"m", &z); } 19 => { ed25519::verify(b"m", &[1; 64], &z); }
        20 => { o.flag(ed25519::verify(b"m", &z, &[5; 32])); }
        21 => { Sha224::default().write_digest(out); } 22 => { Sha256::default().write_digest(out); } 23 => { Sha384::default().write_digest(out); } 24 => { Sha512::default().write_digest(out); }
        25 => { hkdf::extract::<Sha256>(b"s", b"i", out); } 26 => { hkdf::extract::<Sha512>(b"s", b"i", out); }
        27 => { hkdf::expand::<Sha256>(&z, b"i", &mut [0; 5]); } 28 => { hkdf::expand::<Sha384>(&z, b"i", &mut [0; 5]); }
        29 => { o.flag(util::verify_16(&[7; 16], &z)); }
        30 => { Gcm::<Xor>::new(&[1; 32]).encrypt(&z, &[3; 12], &z, &mut [0; 33]); }
        _ => { o.flag(hmac::verify::<Sha256>(&z, b"m", &z)); }
    }
    o.put(&[3]);
    o.put(out);
}
const MISUSES: u64 = 32;

// ------------------------------------------------------------------ the families
pub fn families(level: Level) -> Vec<Fam> {
    let lv = level as usize;
    let pick = move |a: u64, b: u64, c: u64, d: u64| [a, b, c, d][lv];
    let mut v = vec![];
    let n = pick(270, 300, 4200, 20000);
    v.push(fam("digests", format!("4 SHA-2 functions, every length 0..{n}, wrapper and three updates"), 4 * n, move |i, o| {
        let (a, l) = (i % 4, (i / 4) as usize);
        let m = mix(l as u64, l);
        let (x, y) = (l / 3, l - l / 4);
        o.say(|| format!("{} of {}", hash_name(a), hex(&m)));
        o.put(&wrapper(a, &m));
        by_hash!(a, H, o.put(&digest::<H>(&[&m[..x], &m[x..y], &m[y..]])));
    }));
    let n = pick(6, 40, 300, 2000);
    v.push(fam("hmac", format!("5 hashes x 14 key lengths x {n} message lengths (tags, wrappers, verification of right, wrong and short tags)"), 5 * 14 * n, move |i, o| {
        const K: [usize; 14] = [0, 1, 20, 36, 37, 38, 63, 64, 65, 127, 128, 129, 200, 300];
        let (a, k, l) = (i % 5, K[(i / 5 % 14) as usize], (i / 70 * pick(23, 5, 1, 1)) as usize);
        let (key, m) = (mix(70 + k as u64, k), mix(l as u64 + 9, l));
        o.say(|| format!("HMAC over {}: key {} message {}", hash_name(a), hex(&key), hex(&m)));
        by_hash!(a, H, do_hmac::<H>(&key, &m, l / 2, o));
        if a < 4 { o.put(&mac_wrapper(a, &key, &m)) }
    }));
    let n = pick(24, 150, 2000, 5300);
    v.push(fam("hkdf", format!("5 hashes x {n} output lengths (0.., and 254 to 256 digests, of which the last panics), extract and expand"), 5 * (n + 5), move |i, o| {
        let (a, j) = (i % 5, i / 5);
        let d = [28usize, 32, 48, 64, 21][a as usize];
        let l = if j < n { (j * pick(9, 3, 1, 1)) as usize } else if level == 0 { [d - 1, d, d + 1, 2 * d + 1, 256 * d][(j - n) as usize] } else { [254 * d, 255 * d - 1, 255 * d, 255 * d + 1, 256 * d][(j - n) as usize] };
        let (salt, ikm, info) = (mix(i, (j % 70) as usize), mix(i + 1, 22), mix(i + 2, (j % 90) as usize));
        o.say(|| format!("HKDF over {}: salt {} input {} info {} output {l} bytes", hash_name(a), hex(&salt), hex(&ikm), hex(&info)));
        let mut prk = vec![0; d];
        by_hash!(a, H, hkdf::extract::<H>(&salt, &ikm, &mut prk));
        o.put(&prk);
        let mut okm = vec![0x77; l];
        by_hash!(a, H, hkdf::expand::<H>(&prk, &info, &mut okm));
        o.put(&okm);
    }));
    let step = pick(16, 2, 1, 1);
    v.push(fam("aes", format!("AES with 16, 24 and 32-byte keys: bits of the key and of the block, one set (every {step})"), 3 * 384 / step, move |i, o| {
        let (s, b) = ((i % 3) as usize, i / 3 * step + i % step);
        let kl = [16, 24, 32][s];
        let (k, x) = if b < 256 { (if b < 8 * kl as u64 { bit(vec![0; kl], b) } else { mix(b, kl) }, vec![b as u8; 16]) } else { (mix(3, kl), bit(vec![0; 16], b - 256)) };
        o.say(|| format!("AES key {} block {}", hex(&k), hex(&x)));
        o.put(&aes(&k, &arr(&x)));
    }));
    let w = pick(5, 10, 120, 280);
    v.push(fam("aead", format!("5 AEADs x {w} data lengths x {w} message lengths, round trip and two refused decryptions"), 5 * w * w, move |i, o| {
        let (a, x, y) = (i % 5, i / 5 % w, i / 5 / w);
        let len = |j: u64, s: u64| match lv { 0 => [0usize, 13, 33, 16, 17][((j + s) % 5) as usize], 1 => [0usize, 1, 12, 15, 16, 17, 31, 33, 64, 65][j as usize], _ => (j * 3) as usize };
        let (k, n, d, m) = (mix(40 + a, KEYLEN[a as usize]), mix(50 + i, 12), mix(60 + i, len(x, 0)), mix(61 + i, len(y, 1)));
        o.say(|| format!("{} key {} nonce {} data {} message {}", aead_name(a), hex(&k), hex(&n), hex(&d), hex(&m)));
        by_aead!(a, A, aead::<A>(&k, &n, &d, &m, o));
    }));
    let n = pick(24, 128, 128, 128);
    v.push(fam("ghash-bits", format!("GHASH key and block bits: {n} x (one bit of the user cipher's key, one bit of the data)"), n * 2, move |i, o| {
        let b = i / 2 * (128 / n) + i % 2 * 3 % 128;
        let (k, d) = if i % 2 == 0 { (bit(vec![0; 16], b % 128), vec![0x80; 16]) } else { (vec![0x31; 16], bit(vec![0; 16], b % 128)) };
        o.say(|| format!("GCM over a user's cipher: key {} data {}", hex(&k), hex(&d)));
        aead::<Gcm<Xor>>(&k, &[9; 12], &d, &[], o);
    }));
    let n = pick(60, 400, 100000, 1000000);
    v.push(fam("poly-values", format!("ChaCha20-Poly1305: {n} keys, with data of 0x00 and 0xff blocks"), n, move |i, o| {
        let (k, d) = (mix(7000 + i, 32), vec![if i % 2 == 0 { 0xff } else { 0 }; (i % 70) as usize]);
        o.say(|| format!("ChaCha20-Poly1305 key {} data {}", hex(&k), hex(&d)));
        aead::<ChaCha20Poly1305>(&k, &[0; 12], &d, &d, o);
    }));
    let n = pick(40, 352, 352, 352);
    v.push(fam("stream", format!("ChaCha20: {n} single-bit keys and nonces, reads and encryptions across block ends"), n, move |i, o| {
        let x = bit(vec![0; 44], i * (352 / n) % 352);
        o.say(|| format!("stream key {} nonce {}", hex(&x[..32]), hex(&x[32..])));
        let mut s = Stream::new(&x[..32], &x[32..]);
        let p = mix(i, 150);
        let mut b = vec![0; 150];
        for l in [1usize, 62, 2, 64, 0, 65, 3] { s.encrypt(&p[..l], &mut b[..l]); o.put(&b[..l]); o.put(&[s.next().unwrap(), s.nth(l).unwrap()]) }
    }));
    let n = pick(16, 64, 20000, 200000);
    v.push(fam("x25519", format!("{n} (scalar, point) pairs: low-order, non-canonical and extreme points, single-bit scalars; public keys"), n, move |i, o| {
        let (k, u) = (if i % 2 == 0 { mix(800 + i, 32) } else { bit(vec![0; 32], i * 37 % 256) }, point(if i % 3 == 0 { 12 + i } else { i % 12 }));
        o.say(|| format!("X25519 scalar {} point {}", hex(&k), hex(&u)));
        o.put(&curve25519::dh(&u, &k));
        if i % 4 == 0 { o.put(&curve25519::gen_pk(&k)) }
    }));
    let n = pick(8, 32, 10000, 100000);
    v.push(fam("ed25519", format!("{n} keys (single-bit and mixed): public key, signature, verification of it, of S + L, of an altered byte"), n, move |i, o| {
        let k = if i % 2 == 0 { mix(600 + i, 32) } else { bit(vec![0; 32], i * 29 % 256) };
        let m = mix(i, (i * 7 % 200) as usize);
        o.say(|| format!("Ed25519 secret key {} message {}", hex(&k), hex(&m)));
        let pk = ed25519::gen_pk(&k);
        let s = ed25519::sign(&m, &k);
        o.put(&pk);
        o.put(&s);
        o.flag(ed25519::verify(&m, &s, &pk));
        let mut t = s;
        add_le(&mut t[32..], &L);
        o.flag(ed25519::verify(&m, &t, &pk));
        t = s;
        t[(i % 32) as usize] ^= 1;
        o.flag(ed25519::verify(&m, &t, &pk));
        if level > 0 { o.flag(ed25519::verify(&m, &s, &point(i % 12))) }
    }));
    let n = pick(12, 36, 36, 36);
    v.push(fam("ed25519-special", format!("{n} verifications with small-order, non-canonical and undecodable keys and R, S in {{0, 1, L - 1, L}}"), n, move |i, o| {
        let e = |j: u64| -> Vec<u8> { match j { 0 => { let mut v = vec![0; 32]; v[0] = 1; v } 1 => { let mut v = vec![0xff; 32]; v[0] = 0xec; v[31] = 0x7f; v } 2 => vec![0; 32], _ => point(j) } };
        let s = match i / 3 % 4 { 0 => vec![0; 32], 1 => { let mut v = vec![0; 32]; v[0] = 1; v } 2 => { let mut v = L.to_vec(); v[0] -= 1; v } _ => L.to_vec() };
        let (a, r) = (e(i % 3), e(if i < 12 { i % 3 } else { (i / 12) * 3 + i % 3 }));
        let sig = [r, s].concat();
        o.say(|| format!("Ed25519 verify: key {} signature {}", hex(&a), hex(&sig)));
        o.flag(ed25519::verify(b"special", &sig, &a));
    }));
    let n = pick(40, 70, 300, 1000);
    v.push(fam("lengths", format!("{MISUSES} calls x every argument length 0..{n}: panics exactly where the 64-bit build does"), MISUSES * n, move |i, o| {
        let (op, l) = (i % MISUSES, (i / MISUSES) as usize);
        if level == 0 && (14..20).contains(&op) && l == 32 { return } // whole curve computations
        o.say(|| format!("call {op} of misuse() with length {l}"));
        misuse(op, l, o);
    }));
    v
}
/// Long inputs, for the compiled 32-bit build: lengths whose bit count, or whose byte count, passes 2^32.
pub fn long_families(level: Level) -> Vec<Fam> {
    let top = if level == 3 { 1usize << 30 } else { 1 << 29 };
    let mut v = vec![
        fam("long-hash", format!("4 SHA-2 functions over {{2^29 - 1, 2^29, 2^29 + 1, {}}} bytes in one update, and HMAC-SHA-256 and HKDF-Extract over 2^29 + 3 bytes", top + 77), 18, move |i, o| {
            let l = if i < 16 { [(1usize << 29) - 1, 1 << 29, (1 << 29) + 1, top + 77][(i / 4) as usize] } else { (1 << 29) + 3 };
            let m = vec![0x61; l];
            o.say(|| format!("case {i}: {l} bytes of 0x61"));
            match i { 16 => o.put(&hmac::hmac_sha256(b"k", &m)), 17 => { let mut p = [0; 64]; hkdf::extract::<Sha512>(&m, &m[..9], &mut p); o.put(&p) } _ => o.put(&wrapper(i % 4, &m)) }
        }),
        fam("long-aead", String::from("GCM over a user's cipher and ChaCha20-Poly1305: data of 2^29 + 5 bytes, and a message of 2^29 + 5 bytes in place of it"), 4, move |i, o| {
            let l = (1usize << 29) + 5;
            let m = vec![0x61; l];
            o.say(|| format!("{} {} of {l} bytes", aead_name(if i < 2 { 4 } else { 3 }), if i % 2 == 0 { "data" } else { "message" }));
            let (d, p): (&[u8], &[u8]) = if i % 2 == 0 { (&m, b"x") } else { (b"x", &m) };
            let mut ct = vec![0; p.len()];
            let t = if i < 2 { Gcm::<Xor>::new(&[3; 16]).encrypt(p, &[1; 12], d, &mut ct) } else { ChaCha20Poly1305::new(&[3; 32]).encrypt(p, &[1; 12], d, &mut ct) };
            o.put(&t);
            o.put(&ct[ct.len() - 1..]);
            o.put(&ct[..ct.len().min(1 << 16)]);
        }),
    ];
    v.push(fam("beyond-4GiB", String::from("4 SHA-2 functions over 2^32 + 3 bytes in updates of 2^28 + 1; a ChaCha20 stream past 2^32 bytes"), 5, move |i, o| {
        let m = vec![0x61; (1 << 28) + 1];
        let mut left = (1u64 << 32) + 3;
        o.say(|| format!("case {i}"));
        if i < 4 {
            by_hash!(i, H, {
                let mut h = H::default();
                while left > 0 { let n = left.min(m.len() as u64); h.update(&m[..n as usize]); left -= n }
                let mut d = vec![0; H::DIGEST_SIZE];
                h.write_digest(&mut d);
                o.put(&d)
            })
        } else {
            let mut s = Stream::new(&[5; 32], &[6; 12]);
            let mut b = vec![0; m.len()];
            while left > 0 { let n = left.min(m.len() as u64) as usize; s.encrypt(&m[..n], &mut b[..n]); o.put(&b[n - n.min(64)..n]); left -= n as u64 }
            let r: Vec<u8> = s.take(100).collect();
            o.put(&r)
        }
    }));
    v
}
