//! The library under test, behind uniform names.
use crate::refs::sha2::Alg;
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::sha2::{self, HashFunction, Sha224, Sha256, Sha384, Sha512};

#[macro_export]
macro_rules! with_hash {
    ($alg:expr, $h:ident, $e:expr) => {
        match $alg {
            $crate::refs::sha2::Alg::S224 => { type $h = crypto_pure::sha2::Sha224; $e }
            $crate::refs::sha2::Alg::S256 => { type $h = crypto_pure::sha2::Sha256; $e }
            $crate::refs::sha2::Alg::S384 => { type $h = crypto_pure::sha2::Sha384; $e }
            $crate::refs::sha2::Alg::S512 => { type $h = crypto_pure::sha2::Sha512; $e }
        }
    };
}
pub fn digest(alg: Alg, parts: &[&[u8]]) -> Vec<u8> {
    with_hash!(alg, H, {
        let mut x = H::default();
        for p in parts { x.update(p) }
        let mut o = vec![0xa5; H::DIGEST_SIZE];
        x.write_digest(&mut o);
        o
    })
}
pub fn digest_wrapper(alg: Alg, m: &[u8]) -> Vec<u8> {
    match alg { Alg::S224 => sha2::sha224(m).to_vec(), Alg::S256 => sha2::sha256(m).to_vec(), Alg::S384 => sha2::sha384(m).to_vec(), Alg::S512 => sha2::sha512(m).to_vec() }
}
pub enum AnyHash { A(Sha224), B(Sha256), C(Sha384), D(Sha512) }
impl AnyHash {
    pub fn new(alg: Alg) -> Self { match alg { Alg::S224 => AnyHash::A(Default::default()), Alg::S256 => AnyHash::B(Default::default()), Alg::S384 => AnyHash::C(Default::default()), Alg::S512 => AnyHash::D(Default::default()) } }
    pub fn update(&mut self, b: &[u8]) { match self { AnyHash::A(x) => x.update(b), AnyHash::B(x) => x.update(b), AnyHash::C(x) => x.update(b), AnyHash::D(x) => x.update(b) } }
    pub fn finish_into(self, o: &mut [u8]) { match self { AnyHash::A(x) => x.write_digest(o), AnyHash::B(x) => x.write_digest(o), AnyHash::C(x) => x.write_digest(o), AnyHash::D(x) => x.write_digest(o) } }
    pub fn size(&self) -> usize { match self { AnyHash::A(_) => Sha224::DIGEST_SIZE, AnyHash::B(_) => Sha256::DIGEST_SIZE, AnyHash::C(_) => Sha384::DIGEST_SIZE, AnyHash::D(_) => Sha512::DIGEST_SIZE } }
    pub fn finish(self) -> Vec<u8> { let mut o = vec![0x5a; self.size()]; self.finish_into(&mut o); o }
}
pub fn hmac(alg: Alg, key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    with_hash!(alg, H, { let mut x = Hmac::<H>::new(key); for p in parts { x.update(p) } let t = x.tag(); assert_eq!(t[..], *AsRef::<[u8]>::as_ref(&t), "the tag's as_ref differs from its slice"); t.to_vec() })
}
pub fn hmac_wrapper(alg: Alg, key: &[u8], m: &[u8]) -> Vec<u8> {
    match alg { Alg::S224 => hmac::hmac_sha224(key, m).to_vec(), Alg::S256 => hmac::hmac_sha256(key, m).to_vec(), Alg::S384 => hmac::hmac_sha384(key, m).to_vec(), Alg::S512 => hmac::hmac_sha512(key, m).to_vec() }
}
pub fn hmac_verify(alg: Alg, key: &[u8], m: &[u8], t: &[u8]) -> bool { with_hash!(alg, H, hmac::verify::<H>(key, m, t)) }
pub fn hkdf_extract(alg: Alg, salt: &[u8], ikm: &[u8], prk: &mut [u8]) { with_hash!(alg, H, crypto_pure::hkdf::extract::<H>(salt, ikm, prk)) }
pub fn hkdf_expand(alg: Alg, prk: &[u8], info: &[u8], okm: &mut [u8]) { with_hash!(alg, H, crypto_pure::hkdf::expand::<H>(prk, info, okm)) }

use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::poly1305::ChaCha20Poly1305;
pub fn aes(key: &[u8], b: &[u8; 16]) -> [u8; 16] {
    match key.len() { 16 => Aes128::new(key).permute(b), 24 => Aes192::new(key).permute(b), _ => Aes256::new(key).permute(b) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aead { G128, G192, G256, Cp }
pub const AEADS: [Aead; 4] = [Aead::G128, Aead::G192, Aead::G256, Aead::Cp];
impl Aead {
    pub fn key_len(self) -> usize { match self { Aead::G128 => 16, Aead::G192 => 24, _ => 32 } }
    pub fn name(self) -> &'static str { match self { Aead::G128 => "aes128gcm", Aead::G192 => "aes192gcm", Aead::G256 => "aes256gcm", Aead::Cp => "chacha20poly1305" } }
    pub fn new(self, key: &[u8]) -> AnyAead { match self { Aead::G128 => AnyAead::A(Gcm::new(key)), Aead::G192 => AnyAead::B(Gcm::new(key)), Aead::G256 => AnyAead::C(Gcm::new(key)), Aead::Cp => AnyAead::D(ChaCha20Poly1305::new(key)) } }
    pub fn reference(self, key: &[u8]) -> RefAead {
        match self { Aead::Cp => RefAead::D(key.to_vec()), _ => { let a = crate::refs::sym::Aes::new(key); RefAead::G(crate::refs::sym::GcmRef::new(Box::new(move |b: &[u8; 16]| a.enc(b)))) } }
    }
}
pub enum AnyAead { A(Gcm<Aes128>), B(Gcm<Aes192>), C(Gcm<Aes256>), D(ChaCha20Poly1305) }
impl AnyAead {
    pub fn enc(&self, m: &[u8], n: &[u8], a: &[u8], o: &mut [u8]) -> [u8; 16] { match self { AnyAead::A(x) => x.encrypt(m, n, a, o), AnyAead::B(x) => x.encrypt(m, n, a, o), AnyAead::C(x) => x.encrypt(m, n, a, o), AnyAead::D(x) => x.encrypt(m, n, a, o) } }
    pub fn dec(&self, c: &[u8], n: &[u8], a: &[u8], t: &[u8], o: &mut [u8]) -> bool { match self { AnyAead::A(x) => x.decrypt(c, n, a, t, o), AnyAead::B(x) => x.decrypt(c, n, a, t, o), AnyAead::C(x) => x.decrypt(c, n, a, t, o), AnyAead::D(x) => x.decrypt(c, n, a, t, o) } }
}
type BoxF = Box<dyn Fn(&[u8; 16]) -> [u8; 16] + Send + Sync>;
pub enum RefAead { G(crate::refs::sym::GcmRef<BoxF>), D(Vec<u8>) }
impl RefAead {
    pub fn seal(&self, n: &[u8], a: &[u8], m: &[u8]) -> (Vec<u8>, [u8; 16]) { match self { RefAead::G(g) => g.seal(n, a, m), RefAead::D(k) => crate::refs::sym::chapoly_seal(k, n, a, m) } }
    pub fn tag(&self, n: &[u8], a: &[u8], c: &[u8]) -> [u8; 16] { match self { RefAead::G(g) => g.tag(n, a, c), RefAead::D(k) => crate::refs::sym::chapoly_tag(k, n, a, c) } }
    pub fn crypt(&self, n: &[u8], m: &[u8]) -> Vec<u8> { match self { RefAead::G(g) => g.crypt(n, m), RefAead::D(k) => crate::refs::sym::chapoly_crypt(k, n, m) } }
}
