//! C21 (counters and limits) and C22 (user-supplied ciphers and hashes).
use crate::engine::*;
use crate::imp::Aead;
use crate::refs::sha2::{hkdf_expand_gen, hmac_gen};
use crate::refs::sym::*;
use crypto_pure::aes::BlockCipher;
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::sha2::HashFunction;
use std::cell::{Cell, RefCell};

// ---------------------------------------------------------------- mock block ciphers
/// A keyed function on blocks; the key's bytes are its description.
/// kind 0: arbitrary looking; 1: identity; 2: constant; 3: complement; 4: permute(0) = chosen H, else arbitrary looking
#[derive(Clone)]
pub struct Mock { kind: u8, h: [u8; 16], seed: u64, plain: bool }
fn mock_fn(kind: u8, hv: &[u8; 16], seed: u64, b: &[u8; 16]) -> [u8; 16] {
    let arb = || {
        let (x, y) = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()));
        let mut s = seed ^ x.wrapping_mul(0x9e3779b97f4a7c15);
        let p = splitmix(&mut s);
        s ^= y.wrapping_mul(0xd6e8feb86659fd93) ^ p;
        let mut o = [0; 16];
        o[..8].copy_from_slice(&splitmix(&mut s).to_le_bytes());
        o[8..].copy_from_slice(&splitmix(&mut s).to_le_bytes());
        o
    };
    match kind { 1 => *b, 2 => *hv, 3 => b.map(|x| !x), 4 => if *b == [0; 16] { *hv } else { arb() }, _ => arb() }
}
thread_local! {
    static KEYSEEN: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static LOG: RefCell<Option<Vec<[u8; 16]>>> = const { RefCell::new(None) };
    static MISUSE: RefCell<Option<String>> = const { RefCell::new(None) };
}
fn parse_key(key: &[u8]) -> Mock {
    let mut h16 = [0; 16];
    for (i, b) in key.iter().skip(1).take(16).enumerate() { h16[i] = *b }
    Mock { kind: key.first().copied().unwrap_or(0), h: h16, seed: h(&[key]), plain: true }
}
impl BlockCipher for Mock {
    fn new(key: &[u8]) -> Self { KEYSEEN.with(|k| *k.borrow_mut() = key.to_vec()); parse_key(key) }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        if self.plain { LOG.with(|l| if let Some(l) = l.borrow_mut().as_mut() { l.push(*b) }) }
        mock_fn(self.kind, &self.h, self.seed, b)
    }
}
fn mock_ref(key: &[u8]) -> GcmRef<impl Fn(&[u8; 16]) -> [u8; 16]> { let m = parse_key(key); GcmRef::new(move |b: &[u8; 16]| mock_fn(m.kind, &m.h, m.seed, b)) }
fn check_mock(c: &mut Ctx, g: &Gcm<Mock>, r: &GcmRef<impl Fn(&[u8; 16]) -> [u8; 16]>, key: &[u8], n: &[u8], a: &[u8], m: &[u8]) {
    let (ct, tg) = r.seal(n, a, m);
    let mut o = vec![0xd7; m.len()];
    let d = || format!("GCM over a user cipher (kind {}, key {}) nonce {} data {} message {}", key.first().unwrap_or(&0), show(key), hex(n), show(a), show(m));
    let Some(tag) = c.must("encrypt", d, || g.encrypt(m, n, a, &mut o)) else { return };
    c.eq("ciphertext", &o, &ct, d);
    c.eq("tag", &tag, &tg, d);
    let mut back = vec![0x28; m.len()];
    if let Some(ok) = c.must("decrypt", d, || g.decrypt(&ct, n, a, &tg, &mut back)) { if !ok { c.fail(|| format!("decrypt refused the right tag\n  {}", d())) } c.eq("message", &back, m, d); }
    let bad = (u128::from_be_bytes(tg) ^ 1u128 << (c.idx % 128)).to_be_bytes();
    let mut keep = vec![0x28; m.len()];
    if let Some(ok) = c.must("decrypt", d, || g.decrypt(&ct, n, a, &bad, &mut keep)) { if ok { c.fail(|| format!("decrypt accepted a wrong tag\n  {}", d())) } c.eq("refused output", &keep, &vec![0x28; m.len()], d); }
    c.trace(3, h(&[key, n, a, b"|", m]), h(&[&o, &tag]));
    c.note(|| format!("{} -> tag {}", d(), hex(&tg)));
}
fn hkey(hv: u128) -> Vec<u8> { let mut k = vec![4u8]; k.extend_from_slice(&hv.to_be_bytes()); k }

// ---------------------------------------------------------------- toy hashes
#[derive(Clone)]
pub struct Toy<const D: usize, const B: usize> { s: [u64; 2], n: u64 }
fn toy_abs(s: &mut [u64; 2], n: &mut u64, m: &[u8]) { for &b in m { let x = (s[0] ^ (b as u64 + 1)).wrapping_mul(0xd6e8feb86659fd93) ^ s[1].rotate_left(17); s[0] = s[1].wrapping_add(x.rotate_left(29)); s[1] = x; *n += 1 } }
fn toy_out(s: &[u64; 2], n: u64, d: usize) -> Vec<u8> { let mut z = s[0] ^ s[1].rotate_left(32) ^ n.wrapping_mul(0x9e3779b97f4a7c15); let mut v = vec![]; while v.len() < d { v.extend_from_slice(&splitmix(&mut z).to_le_bytes()) } v.truncate(d); v }
impl<const D: usize, const B: usize> Default for Toy<D, B> { fn default() -> Self { Toy { s: [D as u64 * 77 + 1, B as u64 * 1337 + 5], n: 0 } } }
impl<const D: usize, const B: usize> HashFunction for Toy<D, B> {
    const DIGEST_SIZE: usize = D;
    const BLOCK_SIZE: usize = B;
    fn update(&mut self, m: &[u8]) { toy_abs(&mut self.s, &mut self.n, m) }
    fn write_digest(self, o: &mut [u8]) {
        if o.len() != D { MISUSE.with(|m| *m.borrow_mut() = Some(format!("write_digest called with a buffer of {} bytes, digest size {D}", o.len()))) }
        let v = toy_out(&self.s, self.n, D);
        let l = o.len().min(D);
        o[..l].copy_from_slice(&v[..l]);
    }
}
fn toy_ref(d: usize, b: usize, m: &[u8]) -> Vec<u8> { let mut s = [d as u64 * 77 + 1, b as u64 * 1337 + 5]; let mut n = 0; toy_abs(&mut s, &mut n, m); toy_out(&s, n, d) }
fn toy_mac(d: usize, b: usize, key: &[u8], m: &[u8]) -> Vec<u8> { hmac_gen(&|x| toy_ref(d, b, x), b, key, m) }
struct ToyFns {
    d: usize, b: usize,
    mac: fn(&[u8], &[&[u8]]) -> Vec<u8>,
    ver: fn(&[u8], &[u8], &[u8]) -> bool,
    ext: fn(&[u8], &[u8], &mut [u8]),
    exp: fn(&[u8], &[u8], &mut [u8]),
}
fn toy<const D: usize, const B: usize>() -> ToyFns {
    ToyFns {
        d: D, b: B,
        mac: |k, p| { let mut x = Hmac::<Toy<D, B>>::new(k); for q in p { x.update(q) } let t = x.tag(); assert_eq!(t.as_ref(), &t[..]); t.to_vec() },
        ver: |k, m, t| hmac::verify::<Toy<D, B>>(k, m, t),
        ext: |s, i, o| crypto_pure::hkdf::extract::<Toy<D, B>>(s, i, o),
        exp: |p, i, o| crypto_pure::hkdf::expand::<Toy<D, B>>(p, i, o),
    }
}
fn toys() -> Vec<ToyFns> {
    macro_rules! t { ($(($d:expr, $b:expr)),* $(,)?) => { vec![$(toy::<$d, $b>()),*] } }
    t![(1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (4, 4), (1, 5), (5, 5), (4, 7), (7, 8), (8, 8), (8, 16), (16, 16), (16, 17), (15, 31), (20, 64), (31, 32), (32, 32), (33, 33), (32, 64), (33, 64), (47, 63), (48, 128), (63, 63), (63, 64), (64, 64), (64, 65), (63, 65), (64, 127), (64, 128), (28, 64), (64, 129), (64, 136), (64, 144), (20, 200), (64, 255), (64, 256), (32, 257), (1, 300), (64, 1000)]
}
fn misuse(c: &mut Ctx, d: &str) { if let Some(m) = MISUSE.with(|x| x.borrow_mut().take()) { c.fail(|| format!("user hash misused: {m}\n  {d}")) } }
fn check_toy_mac(c: &mut Ctx, f: &ToyFns, key: &[u8], m: &[u8], cut: usize) {
    let want = toy_mac(f.d, f.b, key, m);
    let d = format!("user hash with digest {} block {}: key {} message {} cut at {cut}", f.d, f.b, show(key), show(m));
    if let Some(g) = c.must("hmac", || d.clone(), || (f.mac)(key, &[&m[..cut], &m[cut..]])) { c.eq("HMAC tag", &g, &want, || d.clone()); c.trace(3, h(&[&[f.d as u8, f.b as u8, (f.b >> 8) as u8], key, b"|", m]), h(&[&g])) }
    let mut bad = want.clone();
    bad[(c.idx % f.d as u64) as usize] ^= 1 << (c.idx % 8);
    let short = &want[..f.d - 1];
    let mut long = want.clone();
    long.push(0);
    for (t, ok) in [(&want[..], true), (&bad[..], false), (short, false), (&long[..], false)] {
        if let Some(g) = c.must("hmac verify", || d.clone(), || (f.ver)(key, m, t)) { if g != ok { c.fail(|| format!("HMAC verify of {} returned {g}\n  {d}", show(t))) } }
    }
    misuse(c, &d);
    c.note(|| format!("{d} -> {}", hex(&want)));
}
// ---------------------------------------------------------------- user types given the same key bytes
/// A family of cipher types that read the same key bytes differently.
pub struct MockT<const K: u64>(Mock);
impl<const K: u64> BlockCipher for MockT<K> {
    fn new(key: &[u8]) -> Self { let mut m = parse_key(key); m.kind = 0; m.seed ^= K; MockT(m) }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] { mock_fn(0, &self.0.h, self.0.seed, b) }
}
/// Any of the cipher types; `op` 0 encrypts, 1 decrypts with the right tag, 2 with a wrong one.
struct Cipher { name: &'static str, make: fn(&[u8]) -> Box<dyn Obj>, block: fn(&[u8]) -> Box<dyn Fn(&[u8; 16]) -> [u8; 16]> }
trait Obj { fn run(&self, op: u8, m: &[u8], n: &[u8], a: &[u8], t: &[u8; 16]) -> (Vec<u8>, Vec<u8>); }
impl<E: BlockCipher> Obj for Gcm<E> {
    fn run(&self, op: u8, m: &[u8], n: &[u8], a: &[u8], t: &[u8; 16]) -> (Vec<u8>, Vec<u8>) {
        let mut o = vec![0x6e; m.len()];
        if op == 0 { let t = self.encrypt(m, n, a, &mut o); (o, t.to_vec()) } else { let g = self.decrypt(m, n, a, t, &mut o); (o, vec![g as u8]) }
    }
}
fn mock_t<const K: u64>(name: &'static str) -> Cipher {
    Cipher { name, make: |k| Box::new(Gcm::<MockT<K>>::new(k)), block: |k| { let mut m = parse_key(k); m.seed ^= K; Box::new(move |b| mock_fn(0, &m.h, m.seed, b)) } }
}
fn aes_t<E: BlockCipher + 'static>(name: &'static str) -> Cipher {
    Cipher { name, make: |k| Box::new(Gcm::<E>::new(k)), block: |k| { let a = Aes::new(k); Box::new(move |b| a.enc(b)) } }
}
const TYPE_OPS: [(u8, bool); 4] = [(0, true), (0, false), (1, false), (2, true)];
fn c22_types(t: bool) -> Vec<Family> {
    let depth = if t { 5u32 } else { 4 };
    let n = 4 * TYPE_OPS.len() as u64;
    let all = n.pow(depth);
    let th = if t { 4u32 } else { 3 };
    const HK: u64 = 8 * 4;
    vec![
        fam("gcm-types-same-key", format!("3 key lengths x every history of {depth} steps over AES and 3 user ciphers given the same key bytes x {{encrypt with a new or the live object, decrypt, refused decrypt}}"), 3 * all, move |i, c| {
            let kl = [16, 24, 32][(i / all) as usize];
            let types = [match kl { 16 => aes_t::<crypto_pure::aes::Aes128>("AES-128"), 24 => aes_t::<crypto_pure::aes::Aes192>("AES-192"), _ => aes_t::<crypto_pure::aes::Aes256>("AES-256") }, mock_t::<1>("user cipher 1"), mock_t::<2>("user cipher 2"), mock_t::<0xffff_0000>("user cipher 3")];
            let key = mix(80, kl);
            let (nonce, a, m) = (mixa::<12>(81), pat(2, 5), pat(2, 19));
            thread_local! { static WANT: RefCell<std::collections::HashMap<(usize, usize), (Vec<u8>, [u8; 16])>> = Default::default(); }
            let mut live: [Option<Box<dyn Obj>>; 4] = [None, None, None, None];
            let mut story = String::new();
            for s in 0..depth {
                let j = (i % all / n.pow(s) % n) as usize;
                let (ty, (op, fresh)) = (j % 4, TYPE_OPS[j / 4]);
                let (ct, tg) = WANT.with(|w| w.borrow_mut().entry((kl, ty)).or_insert_with(|| GcmRef::new((types[ty].block)(&key)).seal(&nonce, &a, &m)).clone());
                story += &format!("; {} {} object of {}", ["encrypt with", "decrypt with", "refused decrypt with"][op as usize], if fresh { "a new" } else { "the live" }, types[ty].name);
                let d = || format!("same {kl}-byte key for every cipher type{story}");
                if fresh || live[ty].is_none() { let Some(o) = c.must("new", d, || (types[ty].make)(&key)) else { return }; live[ty] = Some(o) }
                let mut bad = tg;
                if op == 2 { bad[7] ^= 4 }
                let Some((o, g)) = c.must("call", d, || live[ty].as_ref().unwrap().run(op, if op == 0 { &m } else { &ct }, &nonce, &a, &bad)) else { return };
                let (wo, wg) = match op { 0 => (ct.clone(), tg.to_vec()), 1 => (m.clone(), vec![1]), _ => (vec![0x6e; m.len()], vec![0]) };
                if !c.eq("output", &o, &wo, d) || !c.eq("tag or answer", &g, &wg, d) { return }
            }
            c.trace(depth as u64, h(&[&i.to_le_bytes()]), h(&[story.as_bytes()]));
            c.note(|| story.clone());
        }).grain(all),
        fam("hash-types-same-key", format!("every history of {th} steps over 8 hash types of several digest and block sizes given the same bytes x {{HMAC, verify, extract, expand}}"), HK.pow(th), move |i, c| {
            thread_local! { static TV: Vec<ToyFns> = vec![toy::<32, 64>(), toy::<33, 64>(), toy::<32, 65>(), toy::<64, 128>(), toy::<63, 128>(), toy::<32, 32>(), toy::<20, 64>(), toy::<32, 128>()]; }
            TV.with(|tv| {
                let (key, m) = (mix(82, 64), pat(2, 33));
                let mut story = String::new();
                for s in 0..th {
                    let j = (i / HK.pow(s) % HK) as usize;
                    let f = &tv[j % 8];
                    story += &format!("; {} over digest {} block {}", ["HMAC", "verify", "extract", "expand"][j / 8], f.d, f.b);
                    let d = || format!("same key bytes for every hash type{story}");
                    let want = toy_mac(f.d, f.b, &key, &m);
                    let g = c.must("call", d, || match j / 8 { 0 => (f.mac)(&key, &[&m]), 1 => vec![(f.ver)(&key, &m, &want) as u8], 2 => { let mut o = vec![0; f.d]; (f.ext)(&key, &m, &mut o); o } _ => { let mut o = vec![0; f.d + 7]; (f.exp)(&key, &m, &mut o); o } });
                    let Some(g) = g else { return };
                    let want = match j / 8 { 1 => vec![1], 3 => hkdf_expand_gen(&|k, m| toy_mac(f.d, f.b, k, m), &key, &m, f.d + 7), _ => want };
                    if !c.eq("result", &g, &want, d) { return }
                }
                c.trace(th as u64, h(&[&i.to_le_bytes()]), h(&[story.as_bytes()]));
                c.note(|| story.clone());
            })
        }).grain(HK.pow(th)),
    ]
}
pub fn c22(t: bool) -> Vec<Family> {
    let ts = toys().len() as u64;
    let lg = if t { 161u64 } else { 81 };
    let kl = if t { 700u64 } else { 200 };
    let mut v = c22_types(t);
    v.extend(vec![
        fam("gcm-lengths", format!("GCM over 4 kinds of user cipher (arbitrary, identity, constant, complement): data length 0..{lg} x message length 0..{lg}"), 4 * lg * lg, move |i, c| {
            let (k, a, m) = ((i % 4) as u8, (i / 4 % lg) as usize, (i / 4 / lg) as usize);
            let key = [&[k][..], &mix(30, 20)].concat();
            check_mock(c, &Gcm::new(&key), &mock_ref(&key), &key, &mixa::<12>(31), &pat(2, a), &pat(32, m));
        }).grain(16),
        fam("gcm-key-lengths", "GCM over a user cipher: key length 0..=300 reaches the cipher unchanged; 3 nonces each", 301 * 3, |i, c| {
            let key = { let mut k = mix(33, (i / 3) as usize); if let Some(x) = k.first_mut() { *x = 0 } k };
            let Some(g) = c.must("new", || format!("key length {}", key.len()), || Gcm::<Mock>::new(&key)) else { return };
            let seen = KEYSEEN.with(|k| k.borrow().clone());
            c.eq("key passed to the cipher", &seen, &key, || "Gcm::new".into());
            check_mock(c, &g, &mock_ref(&key), &key, &[[0; 12], [0xff; 12], mixa(34)][(i % 3) as usize], b"header", &pat(2, 50));
        }),
        fam("gcm-products", "user cipher with H = every single bit: one data block equal to every single bit (128 x 128 products), as data and as ciphertext", 128 * 128, |i, c| {
            let (hb, xb) = (i % 128, i / 128);
            let key = hkey(1u128 << hb);
            let (g, r) = (Gcm::<Mock>::new(&key), mock_ref(&key));
            let x = (1u128 << xb).to_be_bytes();
            check_mock(c, &g, &r, &key, &[0; 12], &x, b"");
            let m = r.crypt(&[0; 12], &x);
            check_mock(c, &g, &r, &key, &[0; 12], b"", &m);
        }).grain(16),
        fam("gcm-products-dense", "H over 0, all ones, every prefix and suffix of ones, 64-bit halves, 40 arbitrary; block over the same set: every pair", 340 * 340, |i, c| {
            let v = |j: u64| -> u128 { match j { 0 => 0, 1 => u128::MAX, 2..=129 => u128::MAX << (j - 2), 130..=257 => u128::MAX >> (j - 130), 258..=297 => u128::from_le_bytes(mixa(j)), 298..=320 => (1u128 << 64) - 1 << (j - 298), _ => 0xaaaa_aaaa_aaaa_aaaa_5555_5555_5555_5555u128.rotate_left((j - 321) as u32 * 7) } };
            let key = hkey(v(i % 340));
            let (g, r) = (Gcm::<Mock>::new(&key), mock_ref(&key));
            check_mock(c, &g, &r, &key, &[3; 12], &v(i / 340).to_be_bytes(), b"");
        }).grain(64),
        fam("gcm-states", "64 H x accumulator steered to every single bit, every run 2^k-1, all ones and zero before a multiplication in the middle of data and of ciphertext", 64 * 258, |i, c| {
            let hv = u128::from_le_bytes(mixa(40 + i % 64)) | 1;
            let j = i / 64;
            let target = match j { 0..=127 => 1u128 << j, 128 => 0, 129 => u128::MAX, _ => (1u128 << (j - 130)) - 1 };
            let key = hkey(hv);
            let (g, r) = (Gcm::<Mock>::new(&key), mock_ref(&key));
            let first: [u8; 16] = mixa(41);
            // state after the first block, then a second block that makes the accumulator hit the target
            let y = gf_mul(u128::from_be_bytes(first), hv);
            let ad = [&first[..], &(y ^ target).to_be_bytes(), &[7; 5]].concat();
            check_mock(c, &g, &r, &key, &[0; 12], &ad, b"tail");
            let ct = [&first[..], &(y ^ target).to_be_bytes(), &[7; 5]].concat();
            let m = r.crypt(&[0; 12], &ct);
            check_mock(c, &g, &r, &key, &[0; 12], b"", &m);
        }).grain(16),
        beyond(t || super::full()),
        fam("gcm-many-blocks", "identity and arbitrary user cipher: 250..260 and 65530..65545 blocks, and one message of 2^24 bits", 2 * 28, |i, c| {
            let k = if i % 2 == 0 { 0 } else { 1u8 };
            let j = (i / 2) as usize;
            let l = if j < 11 { 16 * (250 + j) - j % 3 } else if j < 27 { 16 * (65530 + j - 11) - j % 3 } else { 1 << 21 };
            let key = [&[k][..], &mix(50, 20)].concat();
            check_mock(c, &Gcm::new(&key), &mock_ref(&key), &key, &[0xff; 12], b"aad", &pat(2, l));
        }),
        fam("hmac-key-lengths", format!("{ts} (digest, block) sizes x every key length 0..=2 blocks + 3 (at most {kl}, and the block length +- 2)"), ts * (kl + 6), move |i, c| {
            let tv = toys();
            let f = &tv[(i % ts) as usize];
            let j = (i / ts) as usize;
            let l = if j <= kl as usize { j } else { (f.b + j).saturating_sub(kl as usize + 3) };
            if l > 2 * f.b + 3 { return }
            for m in [0usize, 1, f.b, 2 * f.b + 1] { check_toy_mac(c, f, &mix(60, l), &pat(2, m), m / 2) }
        }).grain(8),
        fam("hmac-messages", format!("{ts} (digest, block) sizes x every message length 0..=150 x every cut (5 for lengths above 20)"), ts * 151, move |i, c| {
            let tv = toys();
            let f = &tv[(i % ts) as usize];
            let l = (i / ts) as usize;
            let m = mix(61, l);
            for cut in 0..=l { if l > 20 && cut % (l / 4) != 0 { continue } check_toy_mac(c, f, &mix(62, (f.b / 2).max(1)), &m, cut) }
        }),
        fam("hmac-key-bytes", "every value of every key byte of short keys, zero-extended keys equal to their extension, keys equal to their own digest", ts * 64, move |i, c| {
            let tv = toys();
            let f = &tv[(i % ts) as usize];
            let p = (i / ts) as usize;
            if p >= f.b { return }
            for v in 0..=255u8 { let mut k = vec![0; (p + 1).min(f.b)]; k[p] = v; if v % 16 == 3 { k.resize(f.b, 0) } check_toy_mac(c, f, &k, b"msg", 1) }
        }),
        fam("hkdf", format!("{ts} (digest, block) sizes x output length 0..=3 digests+1 and around 255 digests x prk length digest, digest+1, block, block+1, 2 blocks; info 0, 1, block; extract over salt lengths 0..=block+2"), ts * 5, move |i, c| {
            let tv = toys();
            let f = &tv[(i % ts) as usize];
            let pl = [f.d, f.d + 1, f.b.max(f.d), f.b.max(f.d) + 1, 2 * f.b.max(f.d)][(i / ts) as usize];
            let prk = mix(63, pl);
            let mac = |k: &[u8], m: &[u8]| toy_mac(f.d, f.b, k, m);
            let full: Vec<Vec<u8>> = [0usize, 1, f.b].iter().map(|&n| hkdf_expand_gen(&mac, &prk, &pat(2, n), 255 * f.d)).collect();
            let mut ls: Vec<usize> = (0..=3 * f.d + 1).collect();
            for x in [127 * f.d, 128 * f.d, 254 * f.d, 255 * f.d] { for y in 0..3 { if x + y > 0 && x + y - 1 <= 255 * f.d { ls.push(x + y - 1) } } }
            for (w, n) in full.iter().zip([0usize, 1, f.b]) {
                for &l in &ls {
                    let d = format!("HKDF-expand over a user hash with digest {} block {}: prk length {pl} info length {n} output length {l}", f.d, f.b);
                    let mut o = vec![0x99; l];
                    if c.must("hkdf expand", || d.clone(), || (f.exp)(&prk, &pat(2, n), &mut o)).is_some() { c.eq("HKDF output", &o, &w[..l], || d.clone()); c.trace(1, h(&[d.as_bytes()]), h(&[&o])) }
                    misuse(c, &d);
                    c.note(|| d.clone());
                }
                let mut o = vec![0x99; 255 * f.d + 1];
                if call(|| (f.exp)(&prk, &pat(2, n), &mut o)).is_ok() { c.fail(|| format!("HKDF beyond 255 digests accepted, digest {} block {}", f.d, f.b)) }
            }
            if i / ts == 0 {
                for sl in 0..=(f.b + 2).min(140) {
                    let d = format!("HKDF-extract over a user hash with digest {} block {}: salt length {sl}", f.d, f.b);
                    let mut o = vec![0x99; f.d];
                    if c.must("hkdf extract", || d.clone(), || (f.ext)(&mix(64, sl), &pat(2, 40), &mut o)).is_some() { c.eq("prk", &o, &toy_mac(f.d, f.b, &mix(64, sl), &pat(2, 40)), || d.clone()); c.trace(1, h(&[d.as_bytes()]), h(&[&o])) }
                    misuse(c, &d);
                }
                for bad in [f.d - 1, f.d + 1, 0, 2 * f.d] { if bad != f.d { let mut o = vec![0; bad]; if call(|| (f.ext)(b"s", b"i", &mut o)).is_ok() { c.fail(|| format!("extract accepted a prk buffer of {bad} bytes for digest {}", f.d)) } } }
                if f.d > 1 { let mut o = vec![0; 9]; if call(|| (f.exp)(&prk[..f.d - 1], b"i", &mut o)).is_ok() { c.fail(|| format!("expand accepted a prk of {} bytes for digest {}", f.d - 1, f.d)) } }
            }
        }),
    ]);
    v
}

// ---------------------------------------------------------------- C21
/// Runs one GCM encryption over a cipher that logs every block it is asked for.
fn logged(c: &mut Ctx, kind: u8, n: &[u8; 12], al: usize, ml: usize, dec: bool) {
    let key = [&[kind][..], &mix(70, 20)].concat();
    let g = Gcm::<Mock>::new(&key);
    let (a, m) = (pat(2, al), pat(71, ml));
    let d = || format!("user cipher kind {kind} nonce {} data length {al} message length {ml} {}", hex(n), if dec { "decrypt" } else { "encrypt" });
    let mut o = vec![0; ml];
    let r = mock_ref(&key);
    LOG.with(|l| *l.borrow_mut() = Some(Vec::with_capacity(ml / 16 + 8)));
    let res = call(|| if dec { let t = r.tag(n, &a, &m); if !g.decrypt(&m, n, &a, &t, &mut o) { panic!("refused") } } else { g.encrypt(&m, n, &a, &mut o); });
    let log = LOG.with(|l| l.borrow_mut().take()).unwrap_or_default();
    if let Err(e) = res { c.fail(|| format!("panicked: {e}\n  {}", d())); return }
    // The tag mask block nonce|1, the authentication-key block 0, and the keystream blocks nonce|2.. must all be
    // distinct, and each keystream block must be asked for once.
    let nb = (ml + 15) / 16;
    let mut seen = vec![0u8; nb + 2];
    for b in &log {
        if *b == [0; 16] { continue }
        let ctr = u32::from_be_bytes(b[12..].try_into().unwrap()) as usize;
        if b[..12] != n[..] || ctr == 0 || ctr > nb + 1 { c.fail(|| format!("counter block {} is outside nonce|1 .. nonce|{}\n  {}", hex(b), nb + 1, d())); return }
        seen[ctr] = seen[ctr].saturating_add(1);
    }
    for (ctr, &k) in seen.iter().enumerate().skip(1) {
        if k == 0 || (k > 1 && ctr > 1) { c.fail(|| format!("counter block nonce|{ctr} was used {k} times\n  {}", d())); return }
    }
    // and each output block must come from its own counter block
    for (j, (x, y)) in o.chunks(16).zip(m.chunks(16)).enumerate() {
        let mut b = [0; 16];
        b[..12].copy_from_slice(n);
        b[12..].copy_from_slice(&(j as u32 + 2).to_be_bytes());
        let k = mock_fn(kind, &[0; 16], h(&[&key]), &b);
        if x.iter().zip(y).zip(k).any(|((x, y), k)| x ^ y != k) { c.fail(|| format!("output block {j} does not use counter block nonce|{}\n  {}", j + 2, d())); return }
    }
    c.trace(log.len() as u64, h(&[&[kind, dec as u8], n, &al.to_le_bytes(), &ml.to_le_bytes()]), log.len() as u64);
    c.count("counter blocks seen", log.len() as u64);
    c.note(|| format!("{}: {} cipher calls, counters 1..={} each once", d(), log.len(), nb + 1));
}
/// x times the hash key of the constant user cipher.
fn r_mul(key: &[u8], x: u128) -> u128 { gf_mul(x, u128::from_be_bytes(parse_key(key).h)) }
/// Aliased memory: `len` bytes of address space, all backed by the same few megabytes.
pub struct Alias(*mut u8, usize);
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn memfd_create(n: *const u8, f: u32) -> i32;
    fn ftruncate(fd: i32, l: i64) -> i32;
    fn close(fd: i32) -> i32;
}
const UNIT: usize = 64 << 20;
impl Alias {
    pub fn new(len: usize) -> Option<Alias> {
        unsafe {
            let total = (len + UNIT - 1) / UNIT * UNIT;
            let p = mmap(std::ptr::null_mut(), total, 0, 0x4022, -1, 0);
            if p as isize == -1 { return None }
            let fd = memfd_create(b"alias\0".as_ptr(), 0);
            if fd < 0 || ftruncate(fd, UNIT as i64) != 0 { return None }
            for i in 0..total / UNIT { if mmap(p.add(i * UNIT), UNIT, 3, 0x11, fd, 0) as isize == -1 { return None } }
            close(fd);
            Some(Alias(p, len))
        }
    }
    /// Address space only: any access is a fault.
    pub fn none(len: usize) -> Option<Alias> { unsafe { let p = mmap(std::ptr::null_mut(), len.max(4096), 0, 0x4022, -1, 0); if p as isize == -1 { None } else { Some(Alias(p, len)) } } }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.0, self.1) } }
    #[allow(clippy::mut_from_ref)]
    pub fn get_mut(&self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.0, self.1) } }
}
impl Drop for Alias { fn drop(&mut self) { unsafe { munmap(self.0, (self.1 + UNIT - 1) / UNIT * UNIT); } } }

/// Child process: is this message length refused? Buffers are address space without access rights, so an
/// accepted call dies on its first access (or is stopped after a few seconds), a refused one panics first.
pub fn aux_limit(args: &[String]) -> i32 {
    let (what, len): (&str, u128) = (&args[0], args[1].parse().unwrap());
    let len = len as usize;
    let (Some(i), Some(o)) = (Alias::none(len), Alias::none(len)) else { println!("NOMEM"); return 0 };
    unsafe { extern "C" { fn alarm(s: u32) -> u32; fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; } setrlimit(4, &[0, 0]); alarm(20); }
    let dec = what.ends_with("-dec");
    println!("START");
    let r = call(|| match what {
        "gcm-mock" => { Gcm::<Mock>::new(&[0; 5]).encrypt(i.get(), &[1; 12], b"", o.get_mut()); }
        "gcm-mock-dec" => { Gcm::<Mock>::new(&[0; 5]).decrypt(i.get(), &[1; 12], b"", &[0; 16], o.get_mut()); }
        _ => {
            let al = *crate::imp::AEADS.iter().find(|a| what.starts_with(a.name())).expect("cipher");
            let ob = al.new(&vec![1; al.key_len()]);
            if dec { ob.dec(i.get(), &[1; 12], b"", &[0; 16], o.get_mut()); } else { ob.enc(i.get(), &[1; 12], b"", o.get_mut()); }
        }
    });
    match r { Ok(_) => { println!("RETURNED"); 0 } Err(m) => { println!("PANIC {m}"); 0 } }
}
fn probe(what: &str, len: u128) -> Result<bool, String> {
    // true = accepted
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["aux-limit", what, &len.to_string()]).output().map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    if s.contains("NOMEM") { return Err("address space refused".into()) }
    use std::os::unix::process::ExitStatusExt;
    if s.contains("PANIC") { return Ok(false) }
    match out.status.signal() { Some(11) | Some(7) | Some(14) if s.contains("START") => Ok(true), _ => Err(format!("unexpected end {:?}: {s}", out.status)) }
}
thread_local! { static NEXT: Cell<u64> = const { Cell::new(0) }; static FULL: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
/// Cipher for full-length messages: checks the counters as they come; stops (by panicking with a marker) when
/// something other than the next counter is asked after the whole message was processed.
pub struct Counting;
const DONE: &str = "full-length message processed";
impl BlockCipher for Counting {
    fn new(_: &[u8]) -> Self { Counting }
    #[inline]
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        let ctr = u32::from_be_bytes([b[12], b[13], b[14], b[15]]) as u64;
        NEXT.with(|n| {
            if ctr == n.get() { n.set(ctr + 1) }
            else if ctr > 1 || (ctr == 1 && b[..12] != [1; 12]) || (ctr == 0 && b[..12] != [0; 12]) { FULL.with(|f| f.set((n.get(), ctr + (1 << 40)))); std::panic::panic_any("counter out of sequence") }
            else { FULL.with(|f| if n.get() == f.get().0 { std::panic::panic_any(DONE) }) }
        });
        [b[15]; 16]
    }
}
/// The mode of operation is generic in the cipher, so lengths that AES takes minutes for can be run with a constant cipher.
pub fn beyond(full: bool) -> Family {
    fam("gcm-beyond-2^32", if !full { "GCM over a constant user cipher: a message of 2^29 + 5 bytes (its ciphertext is all zero; memory is aliased), encrypted and decrypted" } else { "GCM over a constant user cipher: messages of 2^29 + 5 and 2^32 + 21 bytes (their ciphertext is all zero; memory is aliased), encrypted and decrypted" }, if !full { 2 } else { 4 }, |i, c| {
            let len = [(1usize << 29) + 5, (1 << 32) + 21][(i / 2) as usize];
            let (Some(a), Some(b)) = (Alias::new(len), Alias::new(len)) else { c.count("address space refused", 1); return };
            let key = [&[2u8][..], &mix(83, 16)].concat();
            let g = Gcm::<Mock>::new(&key);
            let r = mock_ref(&key);
            let n = mixa::<12>(84);
            // tag of an all-zero ciphertext without data: only the length block counts
            let want = (r_mul(&key, (len as u128) * 8) ^ u128::from_be_bytes(mock_fn(2, &parse_key(&key).h, 0, &[0; 16]))).to_be_bytes();
            debug_assert!(r.tag(&n, &[], &[0; 48]) == (r_mul(&key, 48 * 8) ^ u128::from_be_bytes(parse_key(&key).h)).to_be_bytes());
            let d = || format!("message of {len} bytes {}", if i % 2 == 0 { "encrypted" } else { "decrypted" });
            let unit = &mut a.get_mut()[..UNIT.min(len)];
            if i % 2 == 0 {
                for x in unit.chunks_mut(16) { x.copy_from_slice(&key[1..]) }
                let Some(t) = c.must("encrypt", d, || g.encrypt(a.get(), &n, &[], b.get_mut())) else { return };
                c.eq("tag", &t, &want, d);
                if b.get()[..UNIT].iter().any(|&x| x != 0) { c.fail(|| format!("wrong ciphertext\n  {}", d())) }
            } else {
                let Some(ok) = c.must("decrypt", d, || g.decrypt(a.get(), &n, &[], &want, b.get_mut())) else { return };
                if !ok { c.fail(|| format!("the right tag was refused\n  {}", d())) }
                else if b.get()[..UNIT].chunks(16).any(|x| x != &key[1..]) { c.fail(|| format!("wrong message\n  {}", d())) }
            }
            c.trace(1, h(&[&len.to_le_bytes(), &i.to_le_bytes()]), i);
        }).limit(800)
}
pub fn c21(t: bool) -> Vec<Family> {
    let nm = if t { 2600u64 } else { 700 };
    let g36 = 1u128 << 36;
    let c38 = 1u128 << 38;
    // (cipher, limit: first refused length)
    let mut probes: Vec<(String, u128, bool)> = vec![];
    for (w, first) in [("gcm-mock", g36 - 32), ("aes128gcm", g36 - 32), ("aes192gcm", g36 - 32), ("aes256gcm", g36 - 32), ("chacha20poly1305", c38 - 63)] {
        for dec in ["", "-dec"] {
            let mut ls: Vec<u128> = vec![];
            for d in 0..3 { ls.push(first - 1 - d); ls.push(first + d) }
            ls.extend([first - 15, first - 16, first - 17, first + 15, first + 16, first + 17, first + 31, first + 32, first + 33, first + 63, first + 64, first + 65]);
            ls.extend([1 << 31, 1 << 32, (1 << 32) + 16, 1 << 33, 1 << 35, g36, g36 + 16, g36 + 31, g36 + 32, 1 << 37, (1 << 37) + 5, c38 - 64, c38 - 63, c38, c38 + 1, c38 + 64, 1 << 39, (1 << 39) - 64, 1 << 40, (1 << 40) + 64, (1 << 44) + 16, 1 << 45]);
            ls.sort(); ls.dedup();
            for l in ls { probes.push((format!("{w}{dec}"), l, l < first)) }
        }
    }
    let np = probes.len() as u64;
    let mut v = vec![];
    v.push(fam("full-length", "GCM over a counting cipher: one message of exactly 2^36 - 33 bytes, every one of its 2^32 - 2 counter blocks observed in order (memory is aliased)", 1, |_, c| {
        let len = (1usize << 36) - 33;
        let (Some(i), Some(o)) = (Alias::new(len), Alias::new(len)) else { c.count("address space refused", 1); return };
        NEXT.with(|n| n.set(2));
        FULL.with(|f| f.set((1 << 32, 0)));
        let g = Gcm::<Counting>::new(&[]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.encrypt(i.get(), &[1; 12], b"", o.get_mut())));
        let n = NEXT.with(|n| n.get());
        let f = FULL.with(|f| f.get());
        match r {
            Ok(_) if n == 1 << 32 => {}
            Err(e) if e.downcast_ref::<&str>() == Some(&DONE) => {}
            Err(e) if e.downcast_ref::<&str>() == Some(&"counter out of sequence") => c.fail(|| format!("message of 2^36 - 33 bytes: counter {} asked where {} was expected", f.1 - (1 << 40), f.0)),
            Err(_) => c.fail(|| format!("message of 2^36 - 33 bytes, which is below the documented limit, panicked after counter {}", n - 1)),
            Ok(_) => c.fail(|| format!("message of 2^36 - 33 bytes: only counters below {n} were used")),
        }
        c.count("counter blocks seen", n - 2);
        c.trace(n - 2, n, n);
        c.note(|| format!("2^36 - 33 bytes: counters 2..={} in order", n - 1));
    }).limit(840));
    v.push(fam("limits", format!("{np} (cipher, direction, length) probes at and around 2^36 - 32, 2^38 - 64 and powers of two up to 2^45, each in a process of its own whose buffers may not be touched: refused exactly above the limit"), np, move |i, c| {
        let (w, l, acc) = &probes[i as usize];
        match probe(w, *l) {
            Ok(g) => { if g != *acc { c.fail(|| format!("{w}: a message of {l} bytes was {}, expected {}", if g { "accepted" } else { "refused" }, if *acc { "acceptance" } else { "refusal" })) } c.count(if g { "lengths accepted" } else { "lengths refused" }, 1); c.trace(1, h(&[w.as_bytes(), &l.to_le_bytes()]), g as u64); c.note(|| format!("{w} length {l}: {}", if g { "accepted" } else { "refused" })) }
            Err(e) => { c.count("probes without an answer", 1); if !e.contains("address space") { panic!("{w} {l}: {e}") } }
        }
    }));
    v.push(fam("counter-logs", format!("GCM over a logging cipher, encrypt and decrypt: message lengths 0..={nm} and the byte boundaries of the counter x 3 nonces x data lengths 0, 5, 32"), 18 * (nm + 60), move |i, c| {
        let (dec, n, al) = (i % 2 == 1, [[0; 12], [0xff; 12], mixa(72)][(i / 2 % 3) as usize], [0usize, 5, 32][(i / 6 % 3) as usize]);
        let j = i / 18;
        if j <= nm { return logged(c, 0, &n, al, j as usize, dec) }
        let j = (j - nm - 1) as usize;
        let b = [253usize, 254, 255, 256, 257, 510, 511, 512, 65533, 65534, 65535, 65536, 65537][j % 13] * 16;
        if j < 52 { logged(c, (j / 13 % 2) as u8, &n, al, b - [0, 1, 15, 8][j / 13], dec) }
    }).grain(8));
    v.push(fam("counter-24-bits", "GCM over a logging cipher: 2^24 + 3 blocks (the counter's third byte wraps)", 1, |_, c| logged(c, 0, &mixa(73), 3, ((1 << 24) + 3) * 16 - 5, false)).limit(400));
    v.push(fam("chacha-distinct", "ChaCha20: all 64-byte keystream blocks of 2^16 + 300 consecutive ones, and the AEAD's poly-key block, pairwise distinct for 4 keys; the AEAD keystream is blocks 1.. of the stream", 4, |i, c| {
        let (key, n) = (mix(80 + i, 32), mix(81 + i, 12));
        let nb = 65536 + 300;
        let mut s = Stream::new(&key, &n);
        let mut ks = vec![0; 64 * nb];
        s.encrypt(&vec![0; 64 * nb], &mut ks);
        let mut seen = std::collections::HashMap::new();
        for (j, b) in ks.chunks(64).enumerate() { if let Some(k) = seen.insert(b.to_vec(), j) { c.fail(|| format!("keystream blocks {k} and {j} are equal, key {}", hex(&key))); return } }
        let o = Aead::Cp.new(&key);
        let mut ct = vec![0; 64 * (nb - 1)];
        o.enc(&vec![0; 64 * (nb - 1)], &n, b"", &mut ct);
        if ct[..] != ks[64..] { let j = ct.chunks(64).zip(ks[64..].chunks(64)).position(|(a, b)| a != b).unwrap(); c.fail(|| format!("AEAD keystream block {j} is not stream block {}, key {}", j + 1, hex(&key))) }
        c.count("counter blocks seen", 2 * nb as u64);
        c.trace(2 * nb as u64, h(&[&key, &n]), h(&[&ks]));
    }));
    if t {
        v.push(fam("full-length-chacha", "ChaCha20-Poly1305: one message of exactly 2^38 - 64 bytes is accepted and its last block uses counter 2^32 - 1 (memory is aliased)", 1, |_, c| {
            let len = (1usize << 38) - 64;
            let (Some(i), Some(o)) = (Alias::new(len), Alias::new(len)) else { c.count("address space refused", 1); return };
            let o2 = Aead::Cp.new(&[7; 32]);
            if c.must("encrypt", || "2^38 - 64 bytes".into(), || o2.enc(i.get(), &[1; 12], b"", o.get_mut())).is_some() {
                c.eq("last keystream block", &o.get()[len - 64..], &chacha_block(&[7; 32], &[1; 12], u32::MAX), || "2^38 - 64 bytes".into());
            }
            c.trace(1 << 32, 1, 1);
        }).limit(20000));
    }
    v
}
