//! The library's operations behind plain functions. This crate is instrumented together with the library, because
//! generic code of the library is instantiated here. Nothing here depends on the values of its arguments except
//! `kind`s, which are public.
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{curve25519, ed25519, hkdf, util};

/// A block cipher whose output is chosen by its 32-byte key: block 0 (the hash key H) is the first half, all other
/// blocks are the block XOR the second half.
pub struct Chosen([u8; 32]);
impl BlockCipher for Chosen {
    fn new(key: &[u8]) -> Self { let mut k = [0; 32]; k.copy_from_slice(key); Chosen(k) }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        // branch-free: the counter block of GCM is never zero, the hash-key block always is
        let mut acc = 0u32;
        for x in b { acc |= *x as u32 }
        let z = ((acc.wrapping_sub(1)) >> 8) as u8; // 0xff for the zero block
        let mut o = [0; 16];
        for i in 0..16 { o[i] = (self.0[i] & z) | ((b[i] ^ self.0[16 + i]) & !z) }
        o
    }
}
pub enum Obj { A(Gcm<Aes128>), B(Gcm<Aes192>), C(Gcm<Aes256>), P(ChaCha20Poly1305), M(Gcm<Chosen>) }
#[inline(never)]
pub fn aead_new(kind: u8, key: &[u8]) -> Obj {
    match kind { 0 => Obj::A(Gcm::new(key)), 1 => Obj::B(Gcm::new(key)), 2 => Obj::C(Gcm::new(key)), 3 => Obj::P(ChaCha20Poly1305::new(key)), _ => Obj::M(Gcm::new(key)) }
}
#[inline(never)]
pub fn aead_enc(o: &Obj, m: &[u8], n: &[u8], a: &[u8], out: &mut [u8]) -> [u8; 16] {
    match o { Obj::A(x) => x.encrypt(m, n, a, out), Obj::B(x) => x.encrypt(m, n, a, out), Obj::C(x) => x.encrypt(m, n, a, out), Obj::P(x) => x.encrypt(m, n, a, out), Obj::M(x) => x.encrypt(m, n, a, out) }
}
#[inline(never)]
pub fn aead_dec(o: &Obj, c: &[u8], n: &[u8], a: &[u8], t: &[u8], out: &mut [u8]) -> bool {
    match o { Obj::A(x) => x.decrypt(c, n, a, t, out), Obj::B(x) => x.decrypt(c, n, a, t, out), Obj::C(x) => x.decrypt(c, n, a, t, out), Obj::P(x) => x.decrypt(c, n, a, t, out), Obj::M(x) => x.decrypt(c, n, a, t, out) }
}
pub enum AesObj { A(Aes128), B(Aes192), C(Aes256) }
#[inline(never)]
pub fn aes_new(kind: u8, key: &[u8]) -> AesObj { match kind { 0 => AesObj::A(Aes128::new(key)), 1 => AesObj::B(Aes192::new(key)), _ => AesObj::C(Aes256::new(key)) } }
#[inline(never)]
pub fn aes_block(o: &AesObj, b: &[u8; 16]) -> [u8; 16] { match o { AesObj::A(x) => x.permute(b), AesObj::B(x) => x.permute(b), AesObj::C(x) => x.permute(b) } }
#[inline(never)]
pub fn stream(key: &[u8], nonce: &[u8], m: &[u8], out: &mut [u8]) {
    let mut s = Stream::new(key, nonce);
    s.next();
    s.encrypt(m, out);
}
/// Many small operations on one stream: n bytes in pieces of 1..=7, then a skip of n bytes, then n single reads.
#[inline(never)]
pub fn stream_pieces(key: &[u8], nonce: &[u8], m: &[u8], out: &mut [u8]) {
    let mut s = Stream::new(key, nonce);
    let (mut at, mut k) = (0, 1);
    while at < m.len() {
        let e = (at + k).min(m.len());
        s.encrypt(&m[at..e], &mut out[at..e]);
        at = e;
        k = k % 7 + 1;
    }
    s.nth(m.len());
    for x in out.iter_mut() { *x ^= s.next().unwrap() }
}
/// One-byte updates, with an empty one after each.
#[inline(never)]
pub fn digest_pieces(alg: u8, m: &[u8], out: &mut [u8]) {
    fn go<H: HashFunction>(m: &[u8], out: &mut [u8]) { let mut h = H::default(); for b in m { h.update(core::slice::from_ref(b)); h.update(&[]) } h.write_digest(&mut out[..H::DIGEST_SIZE]) }
    match alg { 0 => go::<Sha224>(m, out), 1 => go::<Sha256>(m, out), 2 => go::<Sha384>(m, out), _ => go::<Sha512>(m, out) }
}
#[inline(never)]
pub fn digest(alg: u8, m: &[u8], out: &mut [u8]) {
    fn go<H: HashFunction>(m: &[u8], out: &mut [u8]) { let mut h = H::default(); h.update(m); h.write_digest(&mut out[..H::DIGEST_SIZE]) }
    match alg { 0 => go::<Sha224>(m, out), 1 => go::<Sha256>(m, out), 2 => go::<Sha384>(m, out), _ => go::<Sha512>(m, out) }
}
#[inline(never)]
pub fn mac(alg: u8, key: &[u8], m: &[u8], out: &mut [u8]) {
    match alg {
        0 => out[..28].copy_from_slice(&hmac::hmac_sha224(key, m)),
        1 => out[..32].copy_from_slice(&hmac::hmac_sha256(key, m)),
        2 => out[..48].copy_from_slice(&hmac::hmac_sha384(key, m)),
        _ => out[..64].copy_from_slice(&hmac::hmac_sha512(key, m)),
    }
}
#[inline(never)]
pub fn mac_parts(alg: u8, key: &[u8], m: &[u8], cut: usize, out: &mut [u8]) {
    fn go<H: HashFunction>(key: &[u8], m: &[u8], cut: usize, out: &mut [u8]) { let mut h = Hmac::<H>::new(key); h.update(&m[..cut]); h.update(&m[cut..]); out[..H::DIGEST_SIZE].copy_from_slice(&h.tag()) }
    match alg { 0 => go::<Sha224>(key, m, cut, out), 1 => go::<Sha256>(key, m, cut, out), 2 => go::<Sha384>(key, m, cut, out), _ => go::<Sha512>(key, m, cut, out) }
}
#[inline(never)]
pub fn mac_verify(alg: u8, key: &[u8], m: &[u8], t: &[u8]) -> bool {
    match alg { 0 => hmac::verify::<Sha224>(key, m, t), 1 => hmac::verify::<Sha256>(key, m, t), 2 => hmac::verify::<Sha384>(key, m, t), _ => hmac::verify::<Sha512>(key, m, t) }
}
#[inline(never)]
pub fn kdf(alg: u8, salt: &[u8], ikm: &[u8], info: &[u8], out: &mut [u8]) {
    fn go<H: HashFunction>(salt: &[u8], ikm: &[u8], info: &[u8], out: &mut [u8]) { let mut prk = [0; 64]; hkdf::extract::<H>(salt, ikm, &mut prk[..H::DIGEST_SIZE]); hkdf::expand::<H>(&prk[..H::DIGEST_SIZE], info, out) }
    match alg { 0 => go::<Sha224>(salt, ikm, info, out), 1 => go::<Sha256>(salt, ikm, info, out), 2 => go::<Sha384>(salt, ikm, info, out), _ => go::<Sha512>(salt, ikm, info, out) }
}
#[inline(never)]
pub fn x_pk(k: &[u8]) -> [u8; 32] { curve25519::gen_pk(k) }
#[inline(never)]
pub fn x_dh(u: &[u8], k: &[u8]) -> [u8; 32] { curve25519::dh(u, k) }
#[inline(never)]
pub fn ed_pk(k: &[u8]) -> [u8; 32] { ed25519::gen_pk(k) }
#[inline(never)]
pub fn ed_sign(m: &[u8], k: &[u8]) -> [u8; 64] { ed25519::sign(m, k) }
#[inline(never)]
pub fn ed_verify(m: &[u8], s: &[u8], pk: &[u8]) -> bool { ed25519::verify(m, s, pk) }
#[inline(never)]
pub fn verify16(a: &[u8; 16], b: &[u8]) -> bool { util::verify_16(a, b) }

// What the type system says about sharing.
pub struct Probe<T>(core::marker::PhantomData<T>);
pub trait No { const SYNC: bool = false; const SEND: bool = false; }
impl<T> No for Probe<T> {}
pub struct ProbeSend<T>(core::marker::PhantomData<T>);
impl<T> No for ProbeSend<T> {}
impl<T: Sync> Probe<T> { pub const SYNC: bool = true; }
impl<T: Send> ProbeSend<T> { pub const SEND: bool = true; }
macro_rules! probe { ($($t:ty),*) => { vec![$((stringify!($t), Probe::<$t>::SYNC, ProbeSend::<$t>::SEND)),*] } }
/// (type, Sync, Send)
pub fn shareable() -> Vec<(&'static str, bool, bool)> {
    probe!(Gcm<Aes128>, Gcm<Aes192>, Gcm<Aes256>, ChaCha20Poly1305, Aes128, Aes192, Aes256, Stream, Sha224, Sha256, Sha384, Sha512, Hmac<Sha224>, Hmac<Sha256>, Hmac<Sha384>, Hmac<Sha512>)
}

// Planted leaks, for the self-test of the recorder.
#[inline(never)]
pub fn leak_compare(a: &[u8], b: &[u8]) -> bool { for i in 0..a.len() { if a[i] != b[i] { return false } } true }
static TABLE: [u8; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u8).wrapping_mul(167) ^ 0x5c; i += 1 } t };
#[inline(never)]
pub fn leak_table(a: u8) -> u8 { TABLE[a as usize] }
#[inline(never)]
pub fn leak_branch(a: u8) -> u8 { let mut r = 1u8; for i in 0..8 { if a >> i & 1 == 1 { for j in 0..a { r = r.wrapping_mul(3).wrapping_add(j) } } } r }
#[inline(never)]
pub fn leak_slices(a: &[u8], b: &[u8]) -> bool { a == b }

/// Planted race, for the self-test of the scheduler: a shared counter updated in two steps.
pub static COUNTER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[inline(never)]
pub fn racy_increment() -> u32 {
    use std::sync::atomic::Ordering::*;
    let v = COUNTER.load(Relaxed);
    COUNTER.store(v + 1, Relaxed);
    v + 1
}
static mut SCRATCH: [u8; 16] = [0; 16];
#[inline(never)]
pub fn racy_scratch(b: &[u8; 16]) -> [u8; 16] {
    unsafe {
        let s = &mut *core::ptr::addr_of_mut!(SCRATCH);
        for i in 0..16 { s[i] = b[15 - i] }
        let mut o = [0; 16];
        for i in 0..16 { o[i] = s[i].wrapping_mul(3) }
        o
    }
}
