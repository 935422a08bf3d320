//! C06-C11: AES, AES-GCM, ChaCha20, ChaCha20-Poly1305.
use crate::engine::*;
use crate::imp::{self, *};
use crate::steer::*;
use crate::refs::sym::*;
use crypto_pure::chacha20::Stream;
use std::sync::OnceLock;

// ---------------------------------------------------------------- C06
fn check_aes(c: &mut Ctx, key: &[u8], b: &[u8; 16]) -> [u8; 16] {
    let r = Aes::new(key);
    let ks = key.len() as u64;
    let mut cov = vec![];
    let cover = c.idx % 8 == 0;
    let want = r.trace(b, |round, s| if cover { for (i, &x) in s.iter().enumerate() { cov.push(ks << 32 | (round as u64) << 16 | (i as u64) << 8 | x as u64) } });
    for v in cov { c.cover("aes (key size, round, position, S-box input) of 10+12+14 rounds x 4096", v) }
    let d = || format!("AES-{} key {} block {}", 8 * key.len(), hex(key), hex(b));
    if let Some(g) = c.must("permute", d, || imp::aes(key, b)) { c.eq("block", &g, &want, d); c.trace(2, h(&[key, b]), h(&[&g])) }
    c.note(|| format!("{} -> {}", d(), hex(&want)));
    want
}
pub const KEYLENS: [usize; 3] = [16, 24, 32];
fn base_key(v: u64, n: usize) -> Vec<u8> { match v { 0 => vec![0; n], 1 => vec![0xff; n], 2 => (0..n as u8).collect(), v => mix(100 + v, n) } }
fn flip(b: &mut [u8], bit: usize) { b[bit / 8] ^= 1 << (bit % 8) }
pub fn c06(t: bool) -> Vec<Family> {
    let nb = if t { 8u64 } else { 5 };
    vec![
        fam("key-bytes", format!("3 key sizes x {nb} base keys x 2 blocks x every value of every key byte"), 3 * nb * 2 * 32 * 256, move |i, c| {
            let n = KEYLENS[(i % 3) as usize];
            let (bk, bb, p, v) = (i / 3 % nb, i / 3 / nb % 2, (i / 6 / nb % 32) as usize, (i / 192 / nb) as u8);
            if p >= n { return }
            let mut k = base_key(bk, n);
            k[p] = v;
            check_aes(c, &k, &if bb == 0 { [0; 16] } else { mixa(3) });
        }).grain(64),
        fam("block-bytes", format!("3 key sizes x {nb} keys x 3 base blocks x every value of every block byte"), 3 * nb * 3 * 4096, move |i, c| {
            let n = KEYLENS[(i % 3) as usize];
            let (bk, bb, p, v) = (i / 3 % nb, i / 3 / nb % 3, (i / 9 / nb % 16) as usize, (i / 144 / nb) as u8);
            let mut b: [u8; 16] = match bb { 0 => [0; 16], 1 => [0xff; 16], _ => mixa(4) };
            b[p] = v;
            check_aes(c, &base_key(bk, n), &b);
        }).grain(64),
        fam("two-bit", "3 key sizes x zero base: every pair of bits over key and block", 3 * 384, |i, c| {
            let n = KEYLENS[(i % 3) as usize];
            let x = (i / 3) as usize;
            if x >= 8 * n + 128 { return }
            for y in x..8 * n + 128 {
                let mut all = vec![0u8; n + 16];
                flip(&mut all, x);
                if y != x { flip(&mut all, y) }
                check_aes(c, &all[..n], &all[n..].try_into().unwrap());
            }
        }),
        fam("chains", format!("3 key sizes x {} chains of 400 encryptions, block fed back and key replaced by outputs", if t { 600 } else { 120 }), 3 * if t { 600 } else { 120 }, |i, c| {
            let n = KEYLENS[(i % 3) as usize];
            let mut k = mix(i / 3 + 1000, n);
            let mut b = mixa(i);
            for s in 0..400 {
                b = check_aes(c, &k, &b);
                if s % 4 == 3 { for j in 0..n { k[j] ^= b[(j * 5 + s) % 16] } }
            }
        }),
        fam("steered-rounds", "3 key sizes x 4 keys x every round: block chosen so that the round's input is every repeated byte, every 1-bit value, its complement, every column zero or all-ones (16 + 16)", 3 * 4 * 14 * 544, |i, c| {
            let n = KEYLENS[(i % 3) as usize];
            let k = base_key(i / 3 % 4, n);
            let a = Aes::new(&k);
            let (r, x) = ((i / 12 % 14) as usize + 1, (i / 168) as usize);
            if r > a.rounds() { return }
            let st: [u8; 16] = match x { 0..=255 => [x as u8; 16], 256..=511 => { let mut b = if x < 384 { [0; 16] } else { [0xff; 16] }; flip(&mut b, x % 128); b } _ => { let mut b: [u8; 16] = mixa(40); for j in 0..4 { if x >> j & 1 == 1 { b[4 * j..4 * j + 4].fill(if x < 528 { 0 } else { 0xff }) } } b } };
            let b = a.block_with(r, &st);
            a.trace(&b, |q, s| if q == r { assert!(*s == st) });
            check_aes(c, &k, &b);
            c.cover("(key size, round, steered input)", i);
        }).grain(64),
        fam("steered-schedule", "3 key sizes x every position of the key schedule: key chosen so that the key-sized window of round-key words there is all zero but for one word that takes every repeated byte, every 1-bit value and its complement; every repeated byte throughout", 3 * 53 * 576, |i, c| {
            let n = KEYLENS[(i % 3) as usize];
            let nk = n / 4;
            let (pos, x) = ((i / 3 % 53) as usize, (i / 159) as usize);
            if pos > 4 * (nk + 7) - nk { return }
            let mut w = vec![[0u8; 4]; nk];
            if x < 256 { w.fill([x as u8; 4]) } else if x < 512 { w[x % nk] = [x as u8; 4] } else { let mut b = if x < 544 { [0; 4] } else { [0xff; 4] }; flip(&mut b, x % 32); if x >= 544 { w.fill([0xff; 4]) } w[x % nk] = b }
            let k = Aes::key_with(&w, pos);
            assert!(Aes::new(&k).schedule()[pos..pos + nk] == w[..]);
            check_aes(c, &k, &mixa(41));
            check_aes(c, &k, &k[..16].try_into().unwrap());
            c.cover("(key size, position, steered window)", i);
        }).grain(64),
        fam("equal-words", "3 key sizes x keys and blocks of one repeated byte: every pair of bytes", 3 * 256, |i, c| {
            let n = KEYLENS[(i % 3) as usize];
            for v in 0..=255u8 { check_aes(c, &vec![(i / 3) as u8; n], &[v; 16]); }
        }),
        fam("one-object", "3 key sizes x one cipher object used for 256 blocks in 4 orders", 12, |i, c| {
            use crypto_pure::aes::*;
            let n = KEYLENS[(i % 3) as usize];
            let k = mix(77, n);
            let r = Aes::new(&k);
            let enc: Box<dyn Fn(&[u8; 16]) -> [u8; 16]> = match n { 16 => { let x = Aes128::new(&k); Box::new(move |b| x.permute(b)) } 24 => { let x = Aes192::new(&k); Box::new(move |b| x.permute(b)) } _ => { let x = Aes256::new(&k); Box::new(move |b| x.permute(b)) } };
            for s in 0..256u64 {
                let id = match i / 3 { 0 => s, 1 => 255 - s, 2 => s / 2, _ => s * 37 % 256 };
                let b = mixa(id);
                let g = enc(&b);
                c.eq("block", &g, &r.enc(&b), || format!("AES-{} reused object, step {s}", 8 * n));
                c.trace(1, h(&[&k, &b, &s.to_le_bytes()]), h(&[&g]));
            }
        }),
    ]
}

// ---------------------------------------------------------------- AEAD encryption
/// Encrypts with the library and compares ciphertext and tag with the reference.
pub fn check_seal(c: &mut Ctx, al: Aead, obj: &AnyAead, r: &RefAead, key: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Option<(Vec<u8>, [u8; 16])> {
    let mut o = vec![0xa7; m.len()];
    let d = || format!("{} key {} nonce {} data {} message {}", al.name(), hex(key), hex(n), show(a), show(m));
    let tag = c.must("encrypt", d, || obj.enc(m, n, a, &mut o))?;
    let (wc, wt) = r.seal(n, a, m);
    c.eq("ciphertext", &o, &wc, d);
    c.eq("tag", &tag, &wt, d);
    c.trace(1, h(&[key, n, a, b"|", m]), h(&[&o, &tag]));
    c.note(|| format!("{} -> {} tag {}", d(), show(&wc), hex(&wt)));
    Some((o, tag))
}
pub fn setup(al: Aead, v: u64) -> (Vec<u8>, Vec<u8>, AnyAead, RefAead) {
    let key = if v == 0 { vec![0; al.key_len()] } else { mix(200 + v, al.key_len()) };
    let n = if v == 0 { vec![0; 12] } else if v == 1 { vec![0xff; 12] } else { mix(300 + v, 12) };
    let (o, r) = (al.new(&key), al.reference(&key));
    (key, n, o, r)
}
fn encrypt_families(als: &'static [Aead], t: bool) -> Vec<Family> {
    let k = als.len() as u64;
    let al = move |i: u64| als[(i % k) as usize];
    let g = if t { 161u64 } else { 97 };
    let lmax = if t { 2100u64 } else { 700 };
    vec![
        fam("length-grid", format!("{k} ciphers x every (data length, message length) in 0..={0} x 0..={0}", g - 1), k * g, move |i, c| {
            let al = al(i);
            let (key, n, o, r) = setup(al, 2 + i / k % 3);
            let a = pat(70, (i / k) as usize);
            for l in 0..g as usize { check_seal(c, al, &o, &r, &key, &n, &a, &pat(71 + l as u64 % 3, l)); }
        }),
        fam("message-lengths", format!("{k} ciphers x every message length 0..={lmax} x 3 data lengths x 4 patterns"), k * (lmax + 1), move |i, c| {
            let al = al(i);
            let (key, n, o, r) = setup(al, 1);
            for a in [0, 13, 40] { for p in 0..4 { if p > 0 && a != 13 { continue } check_seal(c, al, &o, &r, &key, &n, &pat(p, a), &pat(if p == 0 { 80 } else { p }, (i / k) as usize)); } }
        }).grain(4),
        fam("data-lengths", format!("{k} ciphers x every data length 0..={} x message lengths 0, 5, 64", 2 * lmax), k * (2 * lmax + 1), move |i, c| {
            let al = al(i);
            let (key, n, o, r) = setup(al, 0);
            for m in [0, 5, 64] { check_seal(c, al, &o, &r, &key, &n, &pat(2 + i % 3, (i / k) as usize), &pat(82, m)); }
        }).grain(8),
        fam("single-bits", format!("{k} ciphers x every 1-bit key, nonce, data (40 bytes) and message (80 bytes), over zero and over all-ones"), k * (32 + 12 + 40 + 80) * 8 * 2, move |i, c| {
            let al = al(i);
            let base = if i / k % 2 == 0 { 0u8 } else { 0xff };
            let x = (i / k / 2) as usize;
            let (mut key, mut n, mut a, mut m) = (vec![base; 32], vec![base; 12], vec![base; 40], vec![base; 80]);
            if x < 256 { flip(&mut key, x) } else if x < 352 { flip(&mut n, x - 256) } else if x < 672 { flip(&mut a, x - 352) } else { flip(&mut m, x - 672) }
            if x < 256 && x >= 8 * al.key_len() { return }
            key.truncate(al.key_len());
            let (o, r) = (al.new(&key), al.reference(&key));
            check_seal(c, al, &o, &r, &key, &n, &a, &m);
        }).grain(8),
        fam("nonce-bytes", format!("{k} ciphers x every value of every nonce byte, 20-block message"), k * 12 * 256, move |i, c| {
            let al = al(i);
            let (key, mut n, o, r) = setup(al, 3);
            n[(i / k % 12) as usize] = (i / k / 12) as u8;
            check_seal(c, al, &o, &r, &key, &n, b"hdr", &pat(2, 320));
        }).grain(16),
        fam("block-counts", format!("{k} ciphers x messages of 2^j + d blocks, j <= {}, |d| <= 1, less 0 or 3 bytes, nonce ending in ff", if t { 17 } else { 14 }), k * 6 * if t { 18 } else { 15 }, move |i, c| {
            let al = al(i);
            let blk = if al == Aead::Cp { 64 } else { 16 };
            let (key, mut n, o, r) = setup(al, 4);
            n[11] = 0xff; n[10] = 0xff;
            let l = ((1i64 << (i / k / 6)) + (i / k % 3) as i64 - 1) * blk - (i / k / 3 % 2) as i64 * 3;
            if l < 0 { return }
            check_seal(c, al, &o, &r, &key, &n, &[], &pat(2, l as usize));
        }).limit(400),
        fam("wide-counters", format!("{k} ciphers, 2^16 + 2 blocks"), k, move |i, c| {
            let al = al(i);
            let (key, n, o, r) = setup(al, 5);
            check_seal(c, al, &o, &r, &key, &n, b"", &pat(2, 65538 * if al == Aead::Cp { 64 } else { 16 } + 1));
        }).limit(400),
        fam("long-data", format!("{k} ciphers x data of 2^j + d bytes, j <= {}, |d| <= 1 (content), and 2^29 + 5 zero bytes", if t { 22 } else { 18 }), k * (3 * (if t { 23 } else { 19 }) + 1), move |i, c| {
            let al = al(i);
            let (key, n, o, r) = setup(al, 6);
            let x = i / k;
            if x == 0 { let z = vec![0u8; (1 << 29) + 5]; check_seal(c, al, &o, &r, &key, &n, &z, b"m"); return }
            let l = (1i64 << ((x - 1) / 3)) + ((x - 1) % 3) as i64 - 1;
            check_seal(c, al, &o, &r, &key, &n, &pat(85, l as usize), b"message");
        }).limit(600),
        fam("key-nonce-chains", format!("{k} ciphers x {} chains of 60 encryptions, each key, nonce, data and message derived from the previous output", if t { 400 } else { 100 }), k * if t { 400 } else { 100 }, move |i, c| {
            let al = al(i);
            let mut seed = mix(i + 5000, 64);
            for s in 0..60 {
                let (key, n) = (seed[..al.key_len()].to_vec(), seed[32..44].to_vec());
                let a = seed[44..44 + s % 20].to_vec();
                let m = [&seed[..], &seed[..]].concat()[..(s * 7) % 128].to_vec();
                let (o, r) = (al.new(&key), al.reference(&key));
                match check_seal(c, al, &o, &r, &key, &n, &a, &m) { Some((ct, tag)) => { let mut x = ct; x.extend(tag); x.extend(seed); seed = mix(h(&[&x]), 64) } None => return }
            }
        }),
    ]
}
static GCMS: [Aead; 3] = [Aead::G128, Aead::G192, Aead::G256];
static CPS: [Aead; 1] = [Aead::Cp];
static ALL: [Aead; 4] = AEADS;
pub fn c07(t: bool) -> Vec<Family> {
    let mut v = encrypt_families(&GCMS, t);
    v.push(fam("steered-ghash", "3 key sizes x 6 keys x the GHASH state before its last data multiplication steered (by choosing ciphertext) to every 1-bit value, its complement, and every byte-wide run", 3 * 6 * 288, |i, c| {
        let al = GCMS[(i % 3) as usize];
        let (key, n, o, r) = setup(al, 20 + i / 3 % 6);
        let x = (i / 18) as usize;
        let target: u128 = if x < 128 { 1 << x } else if x < 256 { !(1 << (x - 128)) } else { 0xffu128.rotate_left(4 * (x - 256) as u32) };
        let hk = u128::from_be_bytes(Aes::new(&key).enc(&[0; 16]));
        let c1: [u8; 16] = mixa(i);
        let y = gf_mul(u128::from_be_bytes(c1), hk);
        let ct = [c1, (y ^ target).to_be_bytes()].concat();
        let m = r.crypt(&n, &ct);
        check_seal(c, al, &o, &r, &key, &n, &[], &m);
        // and the length block product itself steered to give GHASH = 0 and all-ones
        if x < 2 {
            let hi = gf_inv(hk);
            let want = if x == 0 { 0 } else { u128::MAX };
            let y2 = gf_mul(want, hi) ^ (256u128); // state before length block
            let c2 = gf_mul(y2, hi) ^ y;
            let m = r.crypt(&n, &[c1, c2.to_be_bytes()].concat());
            check_seal(c, al, &o, &r, &key, &n, &[], &m);
        }
    }).grain(8));
    if t || super::full() {
        v.push(fam("beyond-2^32-bytes", if t { "3 key sizes: 2^32 + 21 zero bytes of data; a message of 2^29 + 5 bytes, that is more than 2^32 bits" } else { "AES-128: 2^32 + 21 zero bytes of data" }, if t { 6 } else { 1 }, |i, c| {
            let al = GCMS[(i % 3) as usize];
            if i >= 3 {
                let (key, n, o, r) = setup(al, 6);
                let z = vec![0u8; (1 << 29) + 5];
                let mut out = vec![0xa5u8; z.len()];
                let d = || format!("{} message of {} zero bytes key {} nonce {}", al.name(), z.len(), hex(&key), hex(&n));
                let Some(tag) = c.must("encrypt", d, || o.enc(&z, &n, b"data", &mut out)) else { return };
                let ct = r.crypt(&n, &z);
                if let Some(j) = out.iter().zip(&ct).position(|(a, b)| a != b) { c.fail(|| format!("ciphertext byte {j} is wrong\n  {}", d())); return }
                c.eq("tag", &tag, &r.tag(&n, b"data", &ct), d);
                c.trace(1, h(&[al.name().as_bytes(), &n, &z.len().to_le_bytes()]), h(&[&tag]));
                return;
            }
            let (_key, n, o, r) = setup(al, 6);
            let Some(z) = crate::mem::Long::new((1 << 32) + 21, &[]) else { c.count("address space refused", 1); return };
            giant(c, al, &o, &r, &n, z.get(), b"m");
        }).limit(if t { 3000 } else { 800 }));
    }
    v.push(super::generic::beyond(t));
    v
}
/// One encryption and one decryption with data too long to describe by its bytes.
fn giant(c: &mut Ctx, al: Aead, o: &AnyAead, r: &RefAead, n: &[u8], a: &[u8], m: &[u8]) {
    let d = || format!("{} nonce {} data of {} bytes message {}", al.name(), hex(n), a.len(), hex(m));
    let mut out = vec![0xb1; m.len()];
    let Some(tag) = c.must("encrypt", d, || o.enc(m, n, a, &mut out)) else { return };
    let ct = r.crypt(n, m);
    c.eq("ciphertext", &out, &ct, d);
    c.eq("tag", &tag, &r.tag(n, a, &ct), d);
    c.trace(1, h(&[al.name().as_bytes(), n, &a.len().to_le_bytes(), m]), h(&[&out, &tag]));
    c.note(|| format!("{} -> {}", d(), hex(&tag)));
}
pub fn gf_inv(x: u128) -> u128 {
    // x^(2^128-2)
    let mut r = 1u128 << 127;
    let mut s = x;
    for _ in 1..128 { s = gf_mul(s, s); r = gf_mul(r, s) }
    r
}

// ---------------------------------------------------------------- C08
#[derive(Clone, Copy, Debug)]
enum SOp { Next(usize), Nth(usize), Enc(usize), Dec(usize), TakeSum(usize), Skip(usize) }
struct SModel { ks: &'static [u8], pos: usize }
const KSLEN: usize = 8192;
fn ks(v: usize) -> &'static (Vec<u8>, Vec<u8>, Vec<u8>) {
    static K: OnceLock<Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>> = OnceLock::new();
    &K.get_or_init(|| (0..3).map(|v| { let (k, n) = (mix(400 + v, 32), mix(410 + v, 12)); let s = chacha_stream(&k, &n, KSLEN); (k, n, s) }).collect())[v]
}
fn plain() -> &'static [u8] { static P: OnceLock<Vec<u8>> = OnceLock::new(); P.get_or_init(|| mix(99, 4096)) }
/// Runs one operation on object and model; false on difference.
fn sop(s: &mut Stream, m: &mut SModel, op: SOp) -> Result<(), String> {
    let pos = m.pos;
    let bad = |what: &str| Err(format!("{what} in {op:?} at keystream position {pos}"));
    match op {
        SOp::Next(n) => for j in 0..n { if s.next() != Some(m.ks[pos + j]) { return bad("wrong byte") } },
        SOp::Nth(n) => if s.nth(n) != Some(m.ks[pos + n]) { return bad("wrong byte") },
        SOp::TakeSum(n) => { let v: Vec<u8> = s.by_ref().take(n).collect(); if v != m.ks[pos..pos + n] { return bad("wrong bytes") } }
        SOp::Skip(n) => { let v: Vec<u8> = s.by_ref().skip(n).take(3).collect(); if v != m.ks[pos + n..pos + n + 3] { return bad("wrong bytes") } }
        SOp::Enc(n) | SOp::Dec(n) => {
            let p = &plain()[pos % 61..pos % 61 + n];
            let mut buf = [0x3cu8; 2100];
            if let SOp::Enc(_) = op { s.encrypt(p, &mut buf[..n]) } else { s.decrypt(p, &mut buf[..n]) }
            for j in 0..n { if buf[j] != p[j] ^ m.ks[pos + j] { return bad("wrong output") } }
            if buf[n..].iter().any(|&b| b != 0x3c) { return bad("wrote past the output") }
        }
    }
    m.pos += match op { SOp::Next(n) | SOp::Enc(n) | SOp::Dec(n) | SOp::TakeSum(n) => n, SOp::Nth(n) => n + 1, SOp::Skip(n) => n + 3 };
    Ok(())
}
fn run_sops(c: &mut Ctx, v: usize, ops: &[SOp]) {
    let (k, n, s) = ks(v);
    let mut m = SModel { ks: s, pos: 0 };
    let r = call(|| {
        let mut st = Stream::new(k, n);
        for &op in ops { sop(&mut st, &mut m, op)? }
        // what follows must still be right
        let tail: Vec<u8> = st.take(70).collect();
        if tail != m.ks[m.pos..m.pos + 70] { return Err(format!("wrong keystream after the sequence, position {}", m.pos)) }
        Ok(())
    });
    let st = ops.iter().fold(H64::new().u(v as u64), |s, o| s.b(format!("{o:?}").as_bytes())).get();
    c.trace(ops.len() as u64 + 1, st, m.pos as u64);
    c.cover("(counter, index) positions after a sequence", m.pos as u64);
    match r { Ok(Ok(())) => {} Ok(Err(e)) | Err(e) => c.fail(|| format!("{e}\n  key {} nonce {} operations {ops:?}", hex(k), hex(n))) }
    c.note(|| format!("operations {ops:?}"));
}
pub fn c08(t: bool) -> Vec<Family> {
    let depth = if t { 6 } else { 5 };
    let n = if t { 200u64 } else { 131 };
    let mut v = vec![
        fam("triples", format!("every (encrypt a, read b, decrypt c), each 0..={} bytes", n - 1), n * n, move |i, c| {
            let (k, nn, s) = ks(0);
            let (a, b) = ((i % n) as usize, (i / n) as usize);
            for x in 0..n as usize {
                let mut m = SModel { ks: s, pos: 0 };
                let r = call(|| { let mut st = Stream::new(k, nn); sop(&mut st, &mut m, SOp::Enc(a))?; sop(&mut st, &mut m, SOp::Next(b))?; sop(&mut st, &mut m, SOp::Dec(x))?; sop(&mut st, &mut m, SOp::Next(3)) });
                match r { Ok(Ok(())) => {} Ok(Err(e)) | Err(e) => c.fail(|| format!("{e}\n  key {} nonce {} operations encrypt {a}, next x {b}, decrypt {x}, next x 3", hex(k), hex(nn))) }
                c.trace(5, h(&[&(a as u64).to_le_bytes(), &(b as u64).to_le_bytes(), &(x as u64).to_le_bytes()]), m.pos as u64);
            }
        }).grain(16),
        fam("sequences", format!("every sequence of {depth} operations over 14 operations (next, nth, skip, collect, encrypt, decrypt of 0, 1, 63, 64, 65, 200 bytes)"), 14u64.pow(depth), move |i, c| {
            const OPS: [SOp; 14] = [SOp::Next(1), SOp::Enc(0), SOp::Enc(1), SOp::Dec(63), SOp::Enc(64), SOp::Dec(65), SOp::Enc(200), SOp::Nth(0), SOp::Nth(63), SOp::Nth(64), SOp::Next(64), SOp::TakeSum(65), SOp::Skip(61), SOp::Dec(128)];
            let mut x = i;
            let ops: Vec<SOp> = (0..depth).map(|_| { let o = OPS[(x % 14) as usize]; x /= 14; o }).collect();
            run_sops(c, 1, &ops);
        }).grain(256),
        fam("alternating-calls", "encrypt and decrypt calls of every equal size 1..=300 until 2000 bytes, and every (first, then equal size) in 0..=130", 300 + 131 * 131, |i, c| {
            if i < 300 { let s = i as usize + 1; let ops: Vec<SOp> = (0..2000 / s).map(|j| if j % 2 == 0 { SOp::Enc(s) } else { SOp::Dec(s) }).collect(); run_sops(c, 2, &ops) }
            else { let (f, s) = ((i - 300) as usize / 131, (i - 300) as usize % 131); run_sops(c, 2, &[SOp::Enc(f), SOp::Enc(s), SOp::Dec(s), SOp::Enc(s), SOp::Next(1)]) }
        }).grain(8),
        fam("single-bits", "every 1-bit key and nonce, over zero and all-ones, 3 blocks", 352 * 2, |i, c| {
            let mut x = vec![if i % 2 == 0 { 0u8 } else { 0xff }; 44];
            flip(&mut x, (i / 2) as usize);
            check_stream(c, &x[..32], &x[32..], 192);
        }),
        fam("byte-values", "every value of every key and nonce byte, 2 blocks", 44 * 256, |i, c| {
            let mut x = mix(7, 44);
            x[(i / 256) as usize] = i as u8;
            check_stream(c, &x[..32], &x[32..], 128);
        }).grain(32),
        fam("adaptors", "each start position 0..=130 (reached by encrypting or by reading) x every iterator adaptor of (step_by, zip with an array, fold, for_each, try_fold, position, find, any, all, last, max, size_hint, chain, peekable, skip_while, map_while, enumerate, cmp) x parameter {1, 2, 3, 63, 64, 65, 127, 128, 129}, and the keystream that follows", 131 * 2 * 18 * 9, |i, c| {
            let (k, nn, s) = ks(1);
            let (start, way, what, n) = ((i % 131) as usize, i / 131 % 2, i / 262 % 18, [1usize, 2, 3, 63, 64, 65, 127, 128, 129][(i / 262 / 18) as usize]);
            let mut m = SModel { ks: s, pos: 0 };
            let d = || format!("key {} nonce {} start {start} ({}) adaptor {what} parameter {n}", hex(k), hex(nn), if way == 0 { "encrypted" } else { "read" });
            let r = call(|| {
                let mut st = Stream::new(k, nn);
                sop(&mut st, &mut m, if way == 0 { SOp::Enc(start) } else { SOp::Next(start) })?;
                let w = &s[start..];
                // (what the adaptor gave, what it should give, bytes it consumes)
                let (got, want, used): (Vec<u64>, Vec<u64>, usize) = match what {
                    0 => (st.by_ref().step_by(n).take(4).map(u64::from).collect(), (0..4).map(|j| w[j * n] as u64).collect(), 3 * n + 1),
                    1 => (vec![0u8; n].into_iter().zip(st.by_ref()).map(|(_, b)| b as u64).collect(), w[..n].iter().map(|&b| b as u64).collect(), n),
                    2 => (vec![st.by_ref().take(n).fold(7u64, |a, b| a.wrapping_mul(31) ^ b as u64)], vec![w[..n].iter().fold(7u64, |a, &b| a.wrapping_mul(31) ^ b as u64)], n),
                    3 => { let mut v = vec![]; st.by_ref().take(n).for_each(|b| v.push(b as u64)); (v, w[..n].iter().map(|&b| b as u64).collect(), n) }
                    4 => { let mut k = 0; let mut v = vec![]; let _ = st.try_fold((), |(), b| { v.push(b as u64); k += 1; if k == n { Err(()) } else { Ok(()) } }); (v, w[..n].iter().map(|&b| b as u64).collect(), n) }
                    5 => { let x = w[n]; let p = w.iter().position(|&b| b == x).unwrap(); (vec![st.position(|b| b == x).unwrap() as u64], vec![p as u64], p + 1) }
                    6 => { let x = w[n]; let p = w.iter().position(|&b| b == x).unwrap(); (vec![st.find(|&b| b == x).unwrap() as u64], vec![x as u64], p + 1) }
                    7 => { let x = w[n]; let p = w.iter().position(|&b| b == x).unwrap(); (vec![st.any(|b| b == x) as u64], vec![1], p + 1) }
                    8 => { let x = w[n]; let p = w.iter().position(|&b| b == x).unwrap(); (vec![st.all(|b| b != x) as u64], vec![0], p + 1) }
                    9 => (vec![st.by_ref().take(n).last().unwrap() as u64], vec![w[n - 1] as u64], n),
                    10 => (vec![st.by_ref().take(n).max().unwrap() as u64, st.by_ref().take(n).min().unwrap() as u64], vec![*w[..n].iter().max().unwrap() as u64, *w[n..2 * n].iter().min().unwrap() as u64], 2 * n),
                    11 => { let left = (1u64 << 38) - start as u64; let (lo, hi) = st.size_hint(); (vec![(lo as u64 <= left || lo == usize::MAX) as u64, hi.map_or(true, |h| h as u64 >= left) as u64], vec![1, 1], 0) }
                    12 => (vec![9u8; 2].into_iter().chain(st.by_ref()).take(n + 2).map(u64::from).collect(), [9u64, 9].into_iter().chain(w[..n].iter().map(|&b| b as u64)).collect(), n),
                    13 => { let mut p = st.by_ref().peekable(); let mut v = vec![]; for _ in 0..n { v.push(*p.peek().unwrap() as u64); v.push(p.next().unwrap() as u64) } (v, w[..n].iter().flat_map(|&b| [b as u64, b as u64]).collect(), n) }
                    14 => { let x = w[n]; let p = w.iter().position(|&b| b == x).unwrap(); (st.by_ref().skip_while(|&b| b != x).take(3).map(u64::from).collect(), w[p..p + 3].iter().map(|&b| b as u64).collect(), p + 3) }
                    15 => { let x = w[n]; let p = w.iter().position(|&b| b == x).unwrap(); (st.by_ref().map_while(|b| if b == x { None } else { Some(b as u64) }).collect(), w[..p].iter().map(|&b| b as u64).collect(), p + 1) }
                    16 => (st.by_ref().enumerate().take(n).map(|(j, b)| (j as u64) << 8 | b as u64).collect(), w[..n].iter().enumerate().map(|(j, &b)| (j as u64) << 8 | b as u64).collect(), n),
                    _ => (vec![st.by_ref().take(n).eq(w[..n].iter().copied()) as u64], vec![1], n),
                };
                if got != want { return Err(format!("adaptor gave {got:?}, the keystream gives {want:?}")) }
                m.pos = start + used;
                let tail: Vec<u8> = st.take(70).collect();
                if tail != s[m.pos..m.pos + 70] { return Err(format!("wrong keystream after the adaptor, position {}", m.pos)) }
                Ok(())
            });
            c.trace(3, h(&[&i.to_le_bytes()]), m.pos as u64);
            match r { Ok(Ok(())) => {} Ok(Err(e)) | Err(e) => c.fail(|| format!("{e}\n  {}", d())) }
            c.note(d);
        }).grain(64),
        fam("lengths", "3 keys x one encrypt call of every length 0..=2000", 3 * 2001, |i, c| {
            run_sops(c, (i % 3) as usize, &[SOp::Enc((i / 3) as usize)]);
        }).grain(32),
        fam("counters", format!("2 keys x keystream from block 0 to block 2^{} + 2, compared block by block, in pieces of {{1 MiB, 65 KiB + 7}}", if t { 24 } else { 18 }), 4, move |i, c| {
            let (k, nn, _) = ks((i % 2) as usize);
            let piece = if i < 2 { 1 << 20 } else { 65 * 1024 + 7 };
            let total = ((1usize << if t { 24 } else { 18 }) + 2) * 64;
            let z = vec![0u8; piece];
            let mut o = vec![0u8; piece];
            let mut st = Stream::new(k, nn);
            let mut pos = 0usize;
            let mut block = (u32::MAX, [0u8; 64]);
            while pos < total {
                let l = piece.min(total - pos);
                st.encrypt(&z[..l], &mut o[..l]);
                for (j, &g) in o[..l].iter().enumerate() {
                    let b = ((pos + j) / 64) as u32;
                    if b != block.0 { block = (b, chacha_block(k, nn, b)) }
                    if g != block.1[(pos + j) % 64] { c.fail(|| format!("keystream byte {} wrong\n  key {} nonce {} pieces of {piece}", pos + j, hex(k), hex(nn))); return }
                }
                pos += l;
                c.trace(1, h(&[&pos.to_le_bytes(), &i.to_le_bytes()]), h(&[&o[..l.min(64)]]));
            }
        }).limit(600),
        fam("chains", format!("{} chains of 50 streams, key and nonce taken from the previous keystream", if t { 2000 } else { 400 }), if t { 2000 } else { 400 }, |i, c| {
            let mut x = mix(i + 9000, 44);
            for _ in 0..50 { x = match check_stream(c, &x[..32], &x[32..], 150) { Some(s) => s[100..144].to_vec(), None => return } }
        }),
    ];
    // Deep into the keystream: 2^26 blocks are 4 GiB, 2^32 - 1 is the last block there is.
    let top = if t { 32 } else if super::full() { 28 } else { 25 };
    v.push(fam("deep-counters", format!("one stream from block 0 to block 2^{top} {}, first and last block of every 1 MiB compared, and every block within 2 of a power of two", if top == 32 { "- 1 (the last)" } else { "+ 3" }), 1, move |_, c| {
        let (k, nn, _) = ks(0);
        let mut st = Stream::new(k, nn);
        let z = vec![0u8; 1 << 20];
        let mut o = vec![0u8; 1 << 20];
        let total: u64 = if top == 32 { 1 << 32 } else { (1 << top) + 4 };
        let mut at = 0u64;
        let mut seen = 0;
        while at < total {
            let n = (total - at).min(1 << 14);
            st.encrypt(&z[..64 * n as usize], &mut o[..64 * n as usize]);
            for b in at..at + n {
                if b != at && b != at + n - 1 && !(0..33).any(|e| b.abs_diff(1 << e) <= 2) { continue }
                let p = 64 * (b - at) as usize;
                seen += 1;
                if !c.eq("keystream block", &o[p..p + 64], &chacha_block(k, nn, b as u32), || format!("block {b}, key {} nonce {}", hex(k), hex(nn))) { return }
            }
            at += n;
            c.trace(1, at, h(&[&o[..64]]));
        }
        c.count("keystream blocks compared deep in the stream", seen);
    }).limit(if t { 20000 } else { 800 }));
    v
}
fn check_stream(c: &mut Ctx, k: &[u8], n: &[u8], len: usize) -> Option<Vec<u8>> {
    let w = chacha_stream(k, n, len);
    let d = || format!("key {} nonce {}", hex(k), hex(n));
    let g: Vec<u8> = c.must("stream", d, || Stream::new(k, n).take(len).collect())?;
    c.eq("keystream", &g, &w, d);
    let m = mix(5, len);
    let mut o = vec![1u8; len];
    c.must("encrypt", d, || Stream::new(k, n).encrypt(&m, &mut o))?;
    let wx: Vec<u8> = m.iter().zip(&w).map(|(a, b)| a ^ b).collect();
    c.eq("ciphertext", &o, &wx, d);
    c.trace(2, h(&[k, n]), h(&[&g]));
    c.note(|| format!("{} -> {}", d(), show(&w)));
    Some(w)
}

// ---------------------------------------------------------------- C09
pub fn c09(t: bool) -> Vec<Family> {
    let mut v = encrypt_families(&CPS, t);
    let nk = if t { 1500u64 } else { 300 };
    v.push(fam("steered-final", format!("{nk} key/nonce pairs x 3 data lengths x accumulator before adding s steered to about 120 extreme values (0..5, p-1..p-6, 2^k +- 1, all values making the last carry run through s)"), nk * 3, |i, c| {
        let (key, n) = (mix(600 + i / 3, 32), mix(9600 + i / 3, 12));
        let (o, r) = (Aead::Cp.new(&key), Aead::Cp.reference(&key));
        let s = u128::from_le_bytes(chacha_block(&key, &n, 0)[16..32].try_into().unwrap());
        let a = pat(2, [0, 5, 32][(i % 3) as usize]);
        for (j, tg) in poly_targets(s).into_iter().enumerate() {
            match steer_poly(&key, &n, &a, tg, true) { Some(m) => { c.cover("final accumulator targets reached", j as u64); check_seal(c, Aead::Cp, &o, &r, &key, &n, &a, &m); } None => c.count("targets not reachable", 1) }
        }
    }));
    v.push(fam("steered-middle", format!("{nk} key/nonce pairs x accumulator between two blocks steered to the same values"), nk, |i, c| {
        let (key, n) = (mix(600 + i, 32), mix(9600 + i, 12));
        let (o, r) = (Aead::Cp.new(&key), Aead::Cp.reference(&key));
        let a = pat(2, (i % 20) as usize);
        for tg in poly_targets(i as u128) { if let Some(m) = steer_poly(&key, &n, &a, tg, false) { check_seal(c, Aead::Cp, &o, &r, &key, &n, &a, &m); } }
    }));
    if t || super::full() {
        v.push(fam("beyond-2^32-bytes", "2^32 + 21 zero bytes of data; a message of 2^32 + 21 bytes (ciphertext and tag)", 2, |i, c| {
            let (key, n, o, r) = setup(Aead::Cp, 6);
            let l = (1usize << 32) + 21;
            if i == 0 {
                let Some(z) = crate::mem::Long::new(l, &[]) else { c.count("address space refused", 1); return };
                return giant(c, Aead::Cp, &o, &r, &n, z.get(), b"m");
            }
            let (Some(z), Some(mut out)) = (crate::mem::Long::new(l, b"beginning"), crate::mem::Long::new(l, &[])) else { c.count("address space refused", 1); return };
            let Some(tag) = c.must("encrypt", || format!("{l} bytes, key {}", hex(&key)), || o.enc(z.get(), &n, b"data", out.get_mut())) else { return };
            let ct = out.get();
            for (j, b) in ct.chunks(64).enumerate() {
                let mut w = chacha_block(&key, &n, j as u32 + 1);
                if j == 0 { for (x, y) in w.iter_mut().zip(b"beginning") { *x ^= y } }
                if b != &w[..b.len()] { c.fail(|| format!("ciphertext block {j} of a message of {l} bytes is wrong, key {} nonce {}", hex(&key), hex(&n))); return }
            }
            c.eq("tag", &tag, &r.tag(&n, b"data", ct), || format!("message of {l} bytes, key {} nonce {}", hex(&key), hex(&n)));
            c.trace(1, h(&[&key, &l.to_le_bytes()]), h(&[&tag]));
        }).limit(if t { 3000 } else { 800 }));
    }
    v.push(fam("extreme-blocks", "64 keys x ciphertexts of 1..=6 blocks, each block all-zero, all-ones, or 2^128-5.. (every combination of 3 per position)", 64 * 3u64.pow(6), |i, c| {
        let (key, n) = (mix(700 + i % 64, 32), vec![0; 12]);
        let mut x = i / 64;
        let ct: Vec<u8> = (0..6).flat_map(|_| { let b = [[0u8; 16], [0xff; 16], { let mut b = [0xff; 16]; b[0] = 0xfb; b }][(x % 3) as usize]; x /= 3; b }).collect();
        let (o, r) = (Aead::Cp.new(&key), Aead::Cp.reference(&key));
        for l in [16, 48, 96] { if i / 64 >= 3u64.pow(l / 16) { continue } let m = chapoly_crypt(&key, &n, &ct[..l as usize]); check_seal(c, Aead::Cp, &o, &r, &key, &n, &[], &m); }
    }).grain(64));
    v
}

// ---------------------------------------------------------------- C10
fn check_round(c: &mut Ctx, al: Aead, o: &AnyAead, key: &[u8], n: &[u8], a: &[u8], m: &[u8], other: &AnyAead) {
    let d = || format!("{} key {} nonce {} data {} message {}", al.name(), hex(key), hex(n), show(a), show(m));
    let mut ct = vec![0x11; m.len()];
    let Some(tag) = c.must("encrypt", d, || o.enc(m, n, a, &mut ct)) else { return };
    for (w, ob) in [("same object", o), ("fresh object", other)] {
        let mut back = vec![0x77; m.len()];
        let Some(ok) = c.must("decrypt", d, || ob.dec(&ct, n, a, &tag, &mut back)) else { return };
        if !ok { c.fail(|| format!("decrypt ({w}) refused what encrypt produced\n  {}", d())) }
        c.eq(&format!("decrypted message ({w})"), &back, m, d);
    }
    c.trace(3, h(&[key, n, a, b"|", m]), h(&[&ct, &tag]));
    c.note(|| format!("{} round trip", d()));
}
pub fn c10(t: bool) -> Vec<Family> {
    let al = |i: u64| ALL[(i % 4) as usize];
    let g = if t { 161u64 } else { 81 };
    let lm = if t { 4200 } else { 1100u64 };
    vec![
        fam("length-grid", format!("4 ciphers x every (data length, message length) in 0..={0} x 0..={0}", g - 1), 4 * g, move |i, c| {
            let al = al(i);
            let (key, n, o, _) = setup(al, 2 + i % 5);
            let p = al.new(&key);
            for l in 0..g as usize { check_round(c, al, &o, &key, &n, &pat(70, (i / 4) as usize), &pat(71 + l as u64 % 3, l), &p) }
        }),
        fam("message-lengths", format!("4 ciphers x every message length 0..={lm}"), 4 * (lm + 1), move |i, c| {
            let al = al(i);
            let (key, n, o, _) = setup(al, 1);
            check_round(c, al, &o, &key, &n, b"", &pat(2 + i / 4 % 2, (i / 4) as usize), &al.new(&key));
        }).grain(8),
        fam("data-lengths", format!("4 ciphers x every data length 0..={lm}"), 4 * (lm + 1), move |i, c| {
            let al = al(i);
            let (key, n, o, _) = setup(al, 0);
            check_round(c, al, &o, &key, &n, &pat(2, (i / 4) as usize), &pat(3, (i / 4 % 40) as usize), &al.new(&key));
        }).grain(8),
        fam("single-bits", "4 ciphers x every 1-bit key, nonce, data (20 bytes) and message (40 bytes)", 4 * (32 + 12 + 20 + 40) * 8, move |i, c| {
            let al = al(i);
            let mut x = vec![0u8; 104];
            flip(&mut x, (i / 4) as usize);
            let key = &x[32 - al.key_len()..32];
            check_round(c, al, &al.new(key), key, &x[32..44], &x[44..64], &x[64..], &al.new(key));
        }).grain(8),
        fam("large", "4 ciphers x messages of 2^j + d bytes, j = 11..=20, |d| <= 1, and 3 MiB + 5 with data of 100 kB", 4 * 31, move |i, c| {
            let al = al(i);
            let (key, n, o, _) = setup(al, 9);
            let x = i / 4;
            let (l, a) = if x == 0 { (3 * 1048576 + 5, 100_000) } else { ((1usize << (11 + (x - 1) / 3)) + (x as usize - 1) % 3 - 1, 3) };
            check_round(c, al, &o, &key, &n, &pat(2, a), &pat(2, l), &al.new(&key));
        }).limit(400),
        fam("steered-poly", "ChaCha20-Poly1305: 100 keys x accumulator steered to the extreme values", 100, |i, c| {
            let (key, n) = (mix(600 + i, 32), mix(9600 + i, 12));
            let o = Aead::Cp.new(&key);
            for tg in poly_targets(7) { if let Some(m) = steer_poly(&key, &n, b"x", tg, true) { check_round(c, Aead::Cp, &o, &key, &n, b"x", &m, &Aead::Cp.new(&key)) } }
        }),
        fam("ciphertext-patterns", "4 ciphers x ciphertext (rather than message) all-zero or all-ones, lengths 0..=200", 8 * 201, move |i, c| {
            let al = al(i);
            let (key, n, o, r) = setup(al, 10);
            let ct = vec![if i / 4 % 2 == 0 { 0 } else { 0xffu8 }; (i / 8) as usize];
            check_round(c, al, &o, &key, &n, b"hdr", &r.crypt(&n, &ct), &al.new(&key));
        }).grain(8),
        fam("giant", if t { "ChaCha20-Poly1305: a message of 2^32 + 21 bytes encrypted and decrypted; AES-128-GCM: the honest ciphertext of 2^29 + 5 zero bytes decrypted" } else { "(only in the thorough tier)" }, if t { 2 } else { 0 }, |i, c| {
            use crate::mem::Long;
            if i == 0 {
                let (_key, n, o, _) = setup(Aead::Cp, 9);
                let l = (1usize << 32) + 21;
                let d = || format!("ChaCha20-Poly1305 message of {l} bytes");
                let (Some(mut m), Some(mut ct), Some(mut out)) = (Long::new(l, b"beginning"), Long::new(l, &[]), Long::new(l, &[])) else { c.count("address space refused", 1); return };
                m.get_mut()[l - 5..].copy_from_slice(b"ending"[..5].as_ref());
                let Some(tag) = c.must("encrypt", d, || o.enc(m.get(), &n, b"data", ct.get_mut())) else { return };
                let Some(ok) = c.must("decrypt", d, || o.dec(ct.get(), &n, b"data", &tag, out.get_mut())) else { return };
                if !ok { c.fail(|| format!("refused\n  {}", d())); return }
                if out.get() != m.get() { c.fail(|| format!("wrong message\n  {}", d())) }
                c.trace(2, 1, h(&[&tag]));
            } else {
                let (_key, n, o, r) = setup(Aead::G128, 9);
                let z = vec![0u8; (1 << 29) + 5];
                let d = || format!("AES-128-GCM ciphertext of {} bytes", z.len());
                let ct = r.crypt(&n, &z);
                let tag = r.tag(&n, b"data", &ct);
                let mut out = vec![0xa5u8; z.len()];
                let Some(ok) = c.must("decrypt", d, || o.dec(&ct, &n, b"data", &tag, &mut out)) else { return };
                if !ok { c.fail(|| format!("refused\n  {}", d())); return }
                if out != z { c.fail(|| format!("wrong message\n  {}", d())) }
                c.trace(1, 2, h(&[&tag]));
            }
        }).limit(3000),
    ]
}

// ---------------------------------------------------------------- C11
/// The library must decide exactly as the reference, and leave the output alone when it refuses.
pub fn check_open(c: &mut Ctx, al: Aead, o: &AnyAead, r: &RefAead, n: &[u8], a: &[u8], ct: &[u8], tag: &[u8], why: &str) {
    let want = r.tag(n, a, ct)[..] == *tag;
    open_as(c, al, o, r, n, a, ct, tag, why, want)
}
fn open_as(c: &mut Ctx, al: Aead, o: &AnyAead, r: &RefAead, n: &[u8], a: &[u8], ct: &[u8], tag: &[u8], why: &str, want: bool) {
    let fill: Vec<u8> = (0..ct.len()).map(|i| (i as u8).wrapping_mul(29) ^ 0x6e).collect();
    let mut out = fill.clone();
    let d = || format!("{} nonce {} data {} ciphertext {} tag {} ({why})", al.name(), hex(n), show(a), show(ct), show(tag));
    let Some(got) = c.must("decrypt", d, || o.dec(ct, n, a, tag, &mut out)) else { return };
    if got != want { c.fail(|| format!("decrypt returned {got}, expected {want}\n  {}", d())) }
    if !want { c.eq("output buffer after a refusal (must be unchanged)", &out, &fill, d); c.count("refused", 1) } else { c.eq("message", &out, &r.crypt(n, ct), d); c.count("accepted", 1) }
    c.trace(1, h(&[al.name().as_bytes(), n, a, b"|", ct, b"|", tag]), got as u64);
    c.note(|| format!("{} -> {want}", d()));
}
pub fn c11(t: bool) -> Vec<Family> {
    let al = |i: u64| ALL[(i % 4) as usize];
    // (data length, message length) shapes
    const SH: [(usize, usize); 8] = [(0, 0), (0, 16), (13, 40), (16, 64), (20, 0), (1, 1), (32, 33), (100, 200)];
    let ns = if t { 8u64 } else { 6 };
    vec![
        fam("bit-flips", format!("4 ciphers x {ns} shapes x every 1-bit change of ciphertext, data, nonce, key and tag"), 4 * ns, move |i, c| {
            let al = al(i);
            let (la, lm) = SH[(i / 4) as usize];
            let (key, n, o, r) = setup(al, 30 + i / 4);
            let (a, m) = (pat(2, la), pat(90, lm));
            let (ct, tag) = r.seal(&n, &a, &m);
            check_open(c, al, &o, &r, &n, &a, &ct, &tag, "honest");
            for b in 0..128 { let mut x = tag; flip(&mut x, b); check_open(c, al, &o, &r, &n, &a, &ct, &x, "tag bit") }
            for b in 0..8 * ct.len() { let mut x = ct.clone(); flip(&mut x, b); check_open(c, al, &o, &r, &n, &a, &x, &tag, "ciphertext bit") }
            for b in 0..8 * a.len() { let mut x = a.clone(); flip(&mut x, b); check_open(c, al, &o, &r, &n, &x, &ct, &tag, "data bit") }
            for b in 0..96 { let mut x = n.clone(); flip(&mut x, b); check_open(c, al, &o, &r, &x, &a, &ct, &tag, "nonce bit") }
            for b in 0..8 * key.len() { let mut x = key.clone(); flip(&mut x, b); check_open(c, al, &al.new(&x), &al.reference(&x), &n, &a, &ct, &tag, "key bit") }
        }),
        fam("tag-two-bits", "4 ciphers x 3 shapes x every 2-bit change of the tag", 12 * 128, move |i, c| {
            let al = al(i);
            let (key, n, o, r) = setup(al, 31 + i / 4 % 3);
            let _ = key;
            let (la, lm) = [(3, 5), (0, 0), (20, 33)][(i / 4 % 3) as usize];
            let (a, m) = (pat(2, la), pat(91, lm));
            let (ct, tag) = r.seal(&n, &a, &m);
            let x = (i / 12) as usize;
            for y in x + 1..128 { let mut g = tag; flip(&mut g, x); flip(&mut g, y); open_as(c, al, &o, &r, &n, &a, &ct, &g, "two tag bits", false) }
        }),
        fam("tag-bytes", "4 ciphers x every other value of every tag byte; every pair of bytes with cancelling changes; swaps, rotations, whole-tag and half-tag masks", 4 * 18, move |i, c| {
            let al = al(i);
            let (_, n, o, r) = setup(al, 35);
            let (ct, tag) = r.seal(&n, b"ad", b"some message");
            let x = (i / 4) as usize;
            let mut go = |g: &[u8]| open_as(c, al, &o, &r, &n, b"ad", &ct, g, "tag bytes", *g == tag);
            if x < 16 {
                for d in 1..=255u8 { let mut g = tag; g[x] ^= d; go(&g) }
                for y in 0..16 { if x != y { for d in 1..=255u8 { let mut g = tag; g[x] ^= d; g[y] ^= d; go(&g); let mut g = tag; g[x] = g[x].wrapping_add(d); g[y] = g[y].wrapping_sub(d); go(&g) } let mut g = tag; g.swap(x, y); go(&g) } }
            } else if x == 16 {
                for d in 1..=255u8 { for (a, b) in [(0, 16), (0, 8), (8, 16), (0, 4), (4, 8), (8, 12), (12, 16)] { let mut g = tag; for z in &mut g[a..b] { *z ^= d } go(&g) } go(&[d; 16]) }
                go(&[0; 16]);
                for s in 1..16 { let mut g = tag; g.rotate_left(s); go(&g) }
                let mut g = tag; g.reverse(); go(&g);
            } else {
                for n in 0..=40 { let mut g = tag.to_vec(); g.resize(n, 0); if n != 16 { go(&g) } let g: Vec<u8> = (0..n).map(|j| tag[j % 16]).collect(); if n != 16 { go(&g) } go(&vec![0; n]) }
                for n in 0..=16 { go(&tag[n..]); }
                for v in 0..=255 { let mut g = tag.to_vec(); g.push(v); go(&g); let mut g = vec![v]; g.extend(tag); go(&g) }
                for k in [32usize, 64, 128, 256, 272, 512, 528, 65536 + 16] { let mut g = tag.to_vec(); g.resize(k, 0); go(&g); let g = tag.repeat(k / 16); go(&g) }
            }
        }),
        fam("reshaped", format!("4 ciphers x data and ciphertext lengths 0..={0} x 0..={0}: bytes moved across the boundary in both directions, zero padding added or removed, truncated, extended, reordered blocks, swapped roles, with the honest tag", if t { 40 } else { 24 }), 4 * if t { 41 * 41 } else { 25 * 25 }, move |i, c| {
            let al = al(i);
            let k = if t { 41 } else { 25 };
            let (la, lm) = ((i / 4 % k) as usize, (i / 4 / k) as usize);
            let (_, n, o, r) = setup(al, 36);
            // zero bytes at the ends so that padding confusions collide
            let mut a = pat(2, la);
            let mut ct = pat(92, lm);
            if i % 8 >= 4 { if let Some(x) = a.last_mut() { *x = 0 } if let Some(x) = ct.last_mut() { *x = 0 } if let Some(x) = ct.first_mut() { *x = 0 } }
            let tag = r.tag(&n, &a, &ct);
            check_open(c, al, &o, &r, &n, &a, &ct, &tag, "honest");
            let all = [&a[..], &ct[..]].concat();
            for cut in 0..=all.len() { check_open(c, al, &o, &r, &n, &all[..cut], &all[cut..], &tag, "boundary moved") }
            for z in 1..=17 {
                let mut x = a.clone(); x.extend(vec![0; z]); check_open(c, al, &o, &r, &n, &x, &ct, &tag, "data zero-extended");
                let mut x = ct.clone(); x.extend(vec![0; z]); check_open(c, al, &o, &r, &n, &a, &x, &tag, "ciphertext zero-extended");
                let mut x = vec![0; z]; x.extend(&ct); check_open(c, al, &o, &r, &n, &a, &x, &tag, "ciphertext zero-prefixed");
            }
            for l in 0..ct.len() { check_open(c, al, &o, &r, &n, &a, &ct[..l], &tag, "ciphertext cut") }
            for l in 0..a.len() { check_open(c, al, &o, &r, &n, &a[..l], &ct, &tag, "data cut") }
            check_open(c, al, &o, &r, &n, &ct, &a, &tag, "roles swapped");
            if la % 16 == 0 && lm % 16 == 0 { let mut p = a.clone(); p.resize((la + 15) / 16 * 16, 0); check_open(c, al, &o, &r, &n, &[], &[&p[..], &ct[..]].concat(), &tag, "data as ciphertext") }
            let mut p = a.clone(); p.resize((la + 15) / 16 * 16, 0); let mut q = ct.clone(); q.resize((lm + 15) / 16 * 16, 0);
            check_open(c, al, &o, &r, &n, &p, &q, &tag, "both padded");
            // the length block itself appended as ciphertext
            let mut x = q.clone(); x.extend(len_block(la, lm)); check_open(c, al, &o, &r, &n, &p, &x, &tag, "length block appended");
            if lm >= 32 { let mut x = ct.clone(); x.rotate_left(16); check_open(c, al, &o, &r, &n, &a, &x, &tag, "blocks reordered") }
            // tag without its mask, and the tag of the plaintext
            check_open(c, al, &o, &r, &n, &a, &ct, &r.tag(&n, &a, &r.crypt(&n, &ct)), "tag of plaintext");
            check_open(c, al, &o, &r, &n, &a, &ct, &r.tag(&n, &[], &ct), "tag without data");
            check_open(c, al, &o, &r, &n, &a, &ct, &r.tag(&n, &a, &[]), "tag without ciphertext");
        }),
        fam("lengths-modulo", "4 ciphers x all-zero data or ciphertext whose lengths differ by 2^8, 2^13, 2^16, 2^29 (bit or byte length equal modulo a power of two) with the honest tag; both orders", 4 * 24, move |i, c| {
            let al = al(i);
            let (_, n, o, r) = setup(al, 37);
            let x = i / 4;
            let d = [1usize << 8, 1 << 12, 1 << 13, 1 << 16, 1 << 21, 1 << 24][(x % 6) as usize];
            let (a0, c0) = (vec![0u8; 16], vec![0u8; 16]);
            let big = vec![0u8; 16 + d];
            match x / 6 {
                0 => { let t = r.tag(&n, &a0, &c0); check_open(c, al, &o, &r, &n, &big, &c0, &t, "data longer by a power of two") }
                1 => { let t = r.tag(&n, &a0, &c0); check_open(c, al, &o, &r, &n, &a0, &big, &t, "ciphertext longer by a power of two") }
                2 => { let t = r.tag(&n, &big, &c0); check_open(c, al, &o, &r, &n, &a0, &c0, &t, "data shorter by a power of two"); check_open(c, al, &o, &r, &n, &big, &c0, &t, "honest") }
                _ => { let t = r.tag(&n, &a0, &big); check_open(c, al, &o, &r, &n, &a0, &c0, &t, "ciphertext shorter by a power of two"); check_open(c, al, &o, &r, &n, &a0, &big, &t, "honest") }
            }
        }).limit(400),
        fam("huge-tags", "4 ciphers x offered tags of the right tag (or nothing) followed by 2^24, 2^32, 2^33 zero bytes", 4 * 6, move |i, c| {
            let al = al(i);
            let (_, n, o, r) = setup(al, 38);
            let (a, ct) = (pat(2, 13), pat(71, 37));
            let w = r.tag(&n, &a, &ct);
            let x = (i / 4) as usize;
            let l = [1usize << 24, 1 << 32, 1 << 33][x % 3] + if x < 3 { 16 } else { 0 };
            let Some(t) = crate::mem::Long::new(l, &w) else { c.count("address space refused", 1); return };
            let before = pat(2, 37);
            let mut out = before.clone();
            let d = || format!("{} with a tag of {l} bytes beginning with the right one", al.name());
            let Some(g) = c.must("decrypt", d, || o.dec(&ct, &n, &a, t.get(), &mut out)) else { return };
            if g { c.fail(|| format!("accepted: {}", d())) }
            c.eq("output buffer after a refusal (must be unchanged)", &out, &before, d);
            c.trace(1, h(&[al.name().as_bytes(), &i.to_le_bytes()]), g as u64);
        }),
        fam("late-bytes", "4 ciphers x messages and data of 300, 4096 + 5 and 70000 bytes: one flipped byte at each position (every 1st/61st/997th) and in the last 40", 4 * 6 * 8, move |i, c| {
            let al = al(i);
            let (_, n, o, r) = setup(al, 38);
            let k = (i / 4 % 3) as usize;
            let (l, st) = [(300usize, 1usize), (4101, 61), (70000, 997)][k];
            let inmsg = i / 12 % 2 == 0;
            let part = (i / 24) as usize;
            let (a, ct) = if inmsg { (pat(2, 9), pat(93, l)) } else { (pat(93, l), pat(2, 9)) };
            let tag = r.tag(&n, &a, &ct);
            let mut pos: Vec<usize> = (0..l).step_by(st).collect();
            pos.extend(l - 40..l);
            for (j, p) in pos.into_iter().enumerate() {
                if j % 8 != part { continue }
                let (mut a, mut ct) = (a.clone(), ct.clone());
                if inmsg { ct[p] ^= 0x10 } else { a[p] ^= 0x10 }
                open_as(c, al, &o, &r, &n, &a, &ct, &tag, "one byte changed", false);
            }
        }).limit(400),
        fam("other-object", "tags and ciphertexts of every cipher, key and nonce offered to every other; earlier message replayed under the next nonce", 16 * 4, move |i, c| {
            let (x, y) = (al(i), al(i / 4));
            let (kx, nx, ox, rx) = setup(x, 40 + i / 16);
            let (ky, ny, _, ry) = setup(y, 41);
            let _ = (kx, ky);
            let m = pat(2, 50);
            let (ct, tag) = ry.seal(&ny, b"d", &m);
            check_open(c, x, &ox, &rx, &ny, b"d", &ct, &tag, "from another cipher or key");
            let (ct, tag) = rx.seal(&nx, b"d", &m);
            let mut n2 = nx.clone();
            for b in 0..12 { n2[b] = n2[b].wrapping_add(1); check_open(c, x, &ox, &rx, &n2, b"d", &ct, &tag, "replayed under another nonce") }
        }),
        fam("steered-poly", "ChaCha20-Poly1305: 60 keys x extreme accumulators: right tag accepted, the tags of neighbouring accumulators (+-1, +-5, +-p) refused", 60, |i, c| {
            let (key, n) = (mix(600 + i, 32), mix(9600 + i, 12));
            let (o, r) = (Aead::Cp.new(&key), Aead::Cp.reference(&key));
            for tg in poly_targets(9) { if let Some(m) = steer_poly(&key, &n, b"x", tg, true) {
                let (ct, tag) = r.seal(&n, b"x", &m);
                let t0 = u128::from_le_bytes(tag);
                for d in [0u128, 1, 5, 1u128.wrapping_neg(), 5u128.wrapping_neg(), 4, 6, 1 << 127] { check_open(c, Aead::Cp, &o, &r, &n, b"x", &ct, &t0.wrapping_add(d).to_le_bytes(), "near tag") }
            } }
        }),
    ]
}
