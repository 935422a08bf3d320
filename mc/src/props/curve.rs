//! C12-C16: X25519 and Ed25519.
use crate::engine::*;
use crate::refs::big::Big;
use crate::refs::curve::*;
use crate::refs::sha2::{hash, Alg};
use crypto_pure::{curve25519 as x, ed25519 as ed};
use std::sync::OnceLock;

use crate::steer::*;
// ---------------------------------------------------------------- C12
fn check_dh(c: &mut Ctx, k: &B32, u: &B32) -> B32 {
    let want = x25519(k, u);
    let d = || format!("scalar {} u {}", hex(k), hex(u));
    if let Some(g) = c.must("dh", d, || x::dh(u, k)) { c.eq("shared secret", &g, &want, d); c.trace(1, h(&[k, u]), h(&[&g])) }
    c.note(|| format!("X25519 {} -> {}", d(), hex(&want)));
    want
}
fn base_u(k: &B32) -> B32 { edwards_to_u(&Pt::base(&clamp(k))) }
fn check_pk(c: &mut Ctx, k: &B32) -> B32 {
    let want = base_u(k);
    let d = || format!("secret key {}", hex(k));
    if let Some(g) = c.must("gen_pk", d, || x::gen_pk(k)) { c.eq("X25519 public key", &g, &want, d); c.trace(1, h(&[k]), h(&[&g])) }
    c.note(|| format!("X25519 {} -> public key {}", d(), hex(&want)));
    want
}
pub fn c12(t: bool) -> Vec<Family> {
    let us = special_u().len() as u64;
    let ks = special_k();
    let nk = ks.len() as u64;
    let (k1, k2) = (ks.clone(), ks.clone());
    let st = steer_targets();
    let tg = (st[0].pts.len() + st[1].pts.len()) as u64;
    let sk = if t { 400u64 } else { 24 };
    let (nc, cl) = if t { (4000u64, 3000u64) } else { (160, 500) };
    vec![
        fam("special-u", format!("{us} special u (0..19, p-1..p-20, p..p+18, low order, each with the top bit set, limb boundaries, generic) x {nk} scalars (0, all ones, single bits, multiples of the group order +- 0/8, generic)"), us * nk, move |i, c| {
            check_dh(c, &k1[(i % nk) as usize], &special_u()[(i / nk) as usize]);
        }).grain(8),
        fam("u-bits", "every single-bit and every two-bit u (256 + 32640) x one generic scalar, every single bit x 8 scalars", 256 * 8 + 32640, |i, c| {
            if i < 2048 { check_dh(c, &mixa(3200 + i / 256), &bits(&[(i % 256) as usize])); }
            else { let (a, b) = pair(i - 2048, 256); check_dh(c, &mixa(3210), &bits(&[a, b])); }
        }).grain(16),
        fam("u-limbs", "every u whose 26/25-bit limbs are each 0, all ones or a lone top bit (3^10) x one generic scalar", 59049, |i, c| { check_dh(c, &mixa(3220), &limb_u(i, 3)); }).grain(16),
        fam("scalar-pairs", "every scalar with one or two set bits (256 + 32640) x a generic u, and its public key", 256 + 32640, |i, c| {
            let k = if i < 256 { bits(&[i as usize]) } else { let (a, b) = pair(i - 256, 256); bits(&[a, b]) };
            check_dh(c, &k, &mixa(3300));
            check_pk(c, &k);
        }).grain(16),
        fam("scalar-runs", "every scalar that is one run of set bits lo..hi (32896), generic u and public key", 32896, |i, c| {
            let (a, b) = pair(i, 257);
            let k = ones(a, b);
            check_dh(c, &k, &mixa(3301));
            check_pk(c, &k);
        }).grain(16),
        fam("scalar-bytes", "every value of every scalar byte over 2 base scalars: public key, and shared secret with a generic u", 2 * 8192, |i, c| {
            let mut k: B32 = if i % 2 == 0 { [0; 32] } else { mixa(3302) };
            k[(i / 2 % 32) as usize] = (i / 64) as u8;
            check_pk(c, &k);
            check_dh(c, &k, &mixa(3303));
        }).grain(16),
        fam("steered-result", format!("{tg} results t in the prime subgroups of the curve and of the twist near 0, p, and every limb boundary x {sk} scalars: the input u is computed so that the result must be t"), tg * sk, move |i, c| {
            let st = steer_targets();
            let j = (i / sk) as usize;
            let (s, q) = if j < st[0].pts.len() { (&st[0], j) } else { (&st[1], j - st[0].pts.len()) };
            let k = if i % sk < nk { k2[(i % sk) as usize] } else { mixa(3400 + i % sk) };
            if Big::from_le(&clamp(&k)).rem(&s.n).is_zero() { return }
            let u = steer_u(&k, &s.pts[q], &s.n);
            let r = check_dh(c, &k, &u);
            assert!(r == s.pts[q], "steering failed");
            c.cover("steered result values", h(&[&r]));
        }).grain(8),
        fam("iteration", format!("{nc} orbits of the RFC 7748 iteration (k, u) -> (X25519(k, u), k), {cl} steps each, every step compared"), nc, move |i, c| {
            let (mut k, mut u): (B32, B32) = if i == 0 { (bits(&[0, 3]), bits(&[0, 3])) } else { (mixa(3500 + i), mixa(93500 + i)) };
            for _ in 0..cl { let r = check_dh(c, &k, &u); u = k; k = r; if c.failed() { return } }
        }),
    ]
}
/// The i-th pair a < b below n (also a = b - 1 and so on): lexicographic by b.
fn pair(i: u64, n: u64) -> (usize, usize) {
    let mut b = (((8 * i + 1) as f64).sqrt() as u64 + 1) / 2;
    while b * (b + 1) / 2 <= i { b += 1 }
    while b * (b - 1) / 2 > i { b -= 1 }
    assert!(b < n + 1);
    ((i - b * (b - 1) / 2) as usize, b as usize)
}

// ---------------------------------------------------------------- C13
fn agree(c: &mut Ctx, a: &B32, pa: &B32, b: &B32, pb: &B32) -> Option<B32> {
    let d = || format!("secret keys {} and {}", hex(a), hex(b));
    let s = c.must("dh", d, || (x::dh(pb, a), x::dh(pa, b)))?;
    if s.0 != s.1 { c.fail(|| format!("the two sides disagree: {} and {}\n  {}", hex(&s.0), hex(&s.1), d())) }
    c.trace(2, h(&[a, b]), h(&[&s.0]));
    c.note(|| format!("{} share {}", d(), hex(&s.0)));
    Some(s.0)
}
fn exchange_keys(n: usize) -> Vec<(B32, B32)> {
    let mut v = special_k();
    for i in 0..64 { v.push(bits(&[4 * i])) }
    for i in 0..32 { v.push(ones(8 * i, 256)) }
    let mut i = 0;
    while v.len() < n { v.push(mixa(3600 + i)); i += 1 }
    v.truncate(n);
    v.into_iter().map(|k| { let p = call(|| x::gen_pk(&k)).unwrap_or([0xee; 32]); (k, p) }).collect()
}
pub fn c13(t: bool) -> Vec<Family> {
    let n = if t { 900usize } else { 260 };
    let ks: &'static OnceLock<Vec<(B32, B32)>> = Box::leak(Box::new(OnceLock::new()));
    let m = (n * (n + 1) / 2) as u64;
    let nq = if t { 1500u64 } else { 200 };
    let (nc, cl) = if t { (800u64, 600u64) } else { (64, 300) };
    vec![
        fam("all-pairs", format!("every unordered pair (with repetition) of {n} secret keys: structured and generic"), m, move |i, c| {
            let ks = ks.get_or_init(|| exchange_keys(n));
            let (a, b) = pair(i, n as u64);
            let b = b - 1;
            let (a, b) = (a.min(b), b);
            if let Some(s) = agree(c, &ks[a].0, &ks[a].1, &ks[b].0, &ks[b].1) {
                let want = ladder(&clamp(&ks[a].0), &base_u(&ks[b].0));
                c.eq("shared secret", &s, &want, || format!("secret keys {} and {}", hex(&ks[a].0), hex(&ks[b].0)));
            }
        }).grain(8),
        fam("equivalent-keys", format!("{nq} secret keys x all 32 settings of the bits that clamping overrides (low three, top two): same public key, and same secret with an honest peer, a peer key with the top bit set, and 8 special peer keys"), nq, |i, c| {
            let k: B32 = match i { 0 => [0; 32], 1 => [0xff; 32], i => mixa(3700 + i) };
            let b: B32 = mixa(83700 + i);
            let peer = x::gen_pk(&b);
            let mut peers = vec![peer, { let mut p = peer; p[31] |= 0x80; p }];
            for j in 0..8 { peers.push(special_u()[((i * 8 + j) % special_u().len() as u64) as usize]) }
            let base: Vec<B32> = peers.iter().map(|p| x::dh(p, &clamp(&k))).collect();
            let pk = x::gen_pk(&clamp(&k));
            for v in 0..32u8 {
                let mut kv = k;
                kv[0] = kv[0] & 248 | v & 7;
                kv[31] = kv[31] & 63 | v >> 3 << 6;
                let d = || format!("secret key {} (clamps to {})", hex(&kv), hex(&clamp(&k)));
                if let Some(g) = c.must("gen_pk", d, || x::gen_pk(&kv)) { c.eq("public key of an equivalent secret key", &g, &pk, d); }
                for (j, p) in peers.iter().enumerate() {
                    if j > 1 && (v ^ i as u8) % 4 != 0 { continue }
                    if let Some(g) = c.must("dh", d, || x::dh(p, &kv)) { c.eq("secret of an equivalent secret key", &g, &base[j], || format!("{} peer {}", d(), hex(p))); c.trace(1, h(&[&kv, p]), h(&[&g])) }
                }
            }
            c.eq("top bit of the peer key", &base[0], &base[1], || format!("secret {} peer {}", hex(&k), hex(&peers[0])));
        }),
        fam("ratchet", format!("{nc} chains of {cl} exchanges in which both sides replace their secret by the shared one (mixed with their role)"), nc, move |i, c| {
            let (mut a, mut b): (B32, B32) = (mixa(3800 + i), mixa(83800 + i));
            for _ in 0..cl {
                let (pa, pb) = (x::gen_pk(&a), x::gen_pk(&b));
                match agree(c, &a, &pa, &b, &pb) { Some(s) => { for j in 0..32 { a[j] = s[j].rotate_left(1) ^ 0x36; b[j] = s[j] ^ 0x5c } } None => return }
                if c.failed() { return }
            }
        }),
    ]
}

// ---------------------------------------------------------------- C14
const LDIG: &str = "base-point table entries used (position x signed radix-16 digit) of 64 x 16";
fn cover_digits(c: &mut Ctx, s: &B32) {
    // signed radix-16 digits, as the table is used
    let mut carry = 0i32;
    for i in 0..64 {
        let mut e = (s[i / 2] >> (4 * (i % 2)) & 15) as i32 + carry;
        carry = (e + 8) >> 4;
        if i == 63 { carry = 0 }
        e -= carry * 16;
        c.cover(LDIG, (i as u64) << 8 | (e + 64) as u64);
    }
}
fn check_key(c: &mut Ctx, seed: &B32) -> EdKey {
    let k = ed_key(seed);
    let d = || format!("secret key {}", hex(seed));
    if let Some(g) = c.must("gen_pk", d, || ed::gen_pk(seed)) { c.eq("Ed25519 public key", &g, &k.pk, d); c.trace(1, h(&[seed]), h(&[&g])) }
    k
}
fn check_sign(c: &mut Ctx, k: &EdKey, seed: &B32, m: &[u8]) -> [u8; 64] {
    let want = ed_sign(k, m);
    let d = || format!("secret key {} message {}", hex(seed), show(m));
    if let Some(g) = c.must("sign", d, || ed::sign(m, seed)) { c.eq("signature", &g, &want, d); c.trace(1, h(&[seed, m]), h(&[&g])) }
    if c.idx % 64 == 0 {
        cover_digits(c, &k.a);
        let mut x = k.prefix.to_vec();
        x.extend_from_slice(m);
        cover_digits(c, &sc_reduce(&hash(Alg::S512, &x)));
    }
    c.note(|| format!("{} -> {}", d(), hex(&want)));
    want
}
pub fn c14(t: bool) -> Vec<Family> {
    let ml = if t { 3000u64 } else { 700 };
    let nk = if t { 12u64 } else { 4 };
    let (nc, cl) = if t { (4000u64, 4000u64) } else { (200, 700) };
    let big: Vec<usize> = { let mut v = vec![4096, 65535, 65536, 65537, 1 << 20, (1 << 20) + 77, (1 << 24) + 1, (1 << 29) + 5]; if t { v.push((1usize << 32) + 3) } v };
    vec![
        fam("message-lengths", format!("{nk} keys x every message length 0..={ml} x 2 contents"), nk * (ml + 1) * 2, move |i, c| {
            let seed: B32 = mixa(4000 + i % nk);
            let k = ed_key(&seed);
            check_sign(c, &k, &seed, &pat(i / nk % 2 * 2, (i / nk / 2) as usize));
        }).grain(8),
        fam("secret-bits", "every secret key with one set bit, one clear bit, or two set bits (256 + 256 + 32640): public key and signatures of an empty and a short message", 512 + 32640, |i, c| {
            let seed: B32 = if i < 256 { bits(&[i as usize]) } else if i < 512 { let mut b = [0xff; 32]; flip(&mut b, i as usize - 256); b } else { let (a, b) = pair(i - 512, 256); bits(&[a, b]) };
            let k = check_key(c, &seed);
            check_sign(c, &k, &seed, b"");
            check_sign(c, &k, &seed, &i.to_le_bytes());
        }).grain(16),
        fam("secret-bytes", "every value of every secret-key byte over 2 bases: public key", 2 * 8192, |i, c| {
            let mut k: B32 = if i % 2 == 0 { [0; 32] } else { mixa(4100) };
            k[(i / 2 % 32) as usize] = (i / 64) as u8;
            check_key(c, &k);
        }).grain(16),
        fam("message-bits", "one key: every single-bit message of 32 bytes and of 200 bytes, every one-byte and (8192 of the) two-byte messages", 256 + 1600 + 256 + 8192, |i, c| {
            let seed: B32 = mixa(4200);
            let k = ed_key(&seed);
            let m = if i < 256 { bits(&[i as usize]).to_vec() } else if i < 1856 { let mut m = vec![0; 200]; flip(&mut m, i as usize - 256); m } else if i < 2112 { vec![(i - 1856) as u8] } else { ((i - 2112) as u16 * 8 + 1).to_be_bytes().to_vec() };
            check_sign(c, &k, &seed, &m);
        }).grain(16),
        fam("long-messages", format!("messages of {big:?} bytes"), big.len() as u64, move |i, c| {
            let seed: B32 = mixa(4300 + i);
            let k = ed_key(&seed);
            check_sign(c, &k, &seed, &pat(2, big[i as usize]));
        }).limit(800),
        fam("chains", format!("{nc} chains of {cl} signatures: the signature is the next message, and every 8th one the next secret key"), nc, move |i, c| {
            let mut seed: B32 = mixa(4400 + i);
            let mut k = check_key(c, &seed);
            let mut m = vec![];
            for s in 0..cl {
                let g = check_sign(c, &k, &seed, &m);
                if c.failed() { return }
                m = g.to_vec();
                if s % 8 == 7 { seed = g[32..].try_into().unwrap(); for j in 0..32 { seed[j] ^= g[j] } k = check_key(c, &seed) }
            }
        }),
    ]
}

// ---------------------------------------------------------------- C15, C16
/// The library must decide exactly as the reference.
pub fn check_verify(c: &mut Ctx, m: &[u8], sig: &[u8], pk: &[u8], why: &str) -> bool {
    let want = ed_verify(m, sig, pk);
    verify_as(c, m, sig, pk, want, why)
}
fn verify_as(c: &mut Ctx, m: &[u8], sig: &[u8], pk: &[u8], want: bool, why: &str) -> bool {
    let d = || format!("message {} signature {} public key {} ({why})", show(m), show(sig), hex(pk));
    let Some(g) = c.must("verify", d, || ed::verify(m, sig, pk)) else { return want };
    if g != want { c.fail(|| format!("verify returned {g}, expected {want}\n  {}", d())) }
    c.count(if want { "accepted" } else { "refused" }, 1);
    c.trace(1, h(&[m, sig, pk]), g as u64);
    c.note(|| format!("{} -> {want}", d()));
    want
}
fn must_accept(c: &mut Ctx, m: &[u8], sig: &[u8], pk: &[u8], why: &str) { assert!(check_verify(c, m, sig, pk, why), "reference refuses a signature built to be valid: {why}") }
const SDIG: &str = "sliding-window digits of S (position x odd digit) used";
fn cover_slide(c: &mut Ctx, s: &B32) {
    let mut r = [0i32; 256];
    for i in 0..256 { r[i] = (s[i / 8] >> (i % 8) & 1) as i32 }
    for i in 0..256 {
        if r[i] == 0 { continue }
        for b in 1..=6 {
            if i + b >= 256 { break }
            if r[i + b] == 0 { continue }
            if r[i] + (r[i + b] << b) <= 15 { r[i] += r[i + b] << b; r[i + b] = 0 }
            else if r[i] - (r[i + b] << b) >= -15 { r[i] -= r[i + b] << b; for k in i + b..256 { if r[k] == 0 { r[k] = 1; break } r[k] = 0 } }
            else { break }
        }
        c.cover(SDIG, (i as u64) << 8 | (r[i] + 64) as u64);
    }
}
fn edge_scalars() -> &'static Vec<Sc> {
    static S: OnceLock<Vec<Sc>> = OnceLock::new();
    S.get_or_init(|| {
        let l = l_big();
        let mut v: Vec<Sc> = vec![];
        for i in 0..18u64 { v.push(Big::from_u64(i).to_le()); v.push(l.sub(&Big::from_u64(i + 1)).to_le()) }
        for k in [7usize, 8, 21, 42, 63, 64, 84, 105, 126, 127, 128, 147, 168, 189, 192, 210, 231, 247, 248, 251, 252] { for d in 0..3u64 { v.push(Big::pow2(k).add(&Big::from_u64(d)).sub(&Big::one()).to_le()) } }
        for i in 1..8u64 { v.push(l.mul(&Big::from_u64(i)).shr1().shr1().shr1().to_le()) }
        for b in [0x11u8, 0x55, 0x77, 0x88, 0xaa, 0xf0, 0x0f, 0xff] { let mut s = [b; 32]; s[31] = 0x0f & b; v.push(sc_reduce(&s)) }
        for i in 0..8 { v.push(sc_reduce(&mix(4500 + i, 64))) }
        v
    })
}
/// A signature valid under a small-order (or identity) key: R = S B - k A, found by trying messages and R's.
fn small_order_sig(a: &Pt, pk: &[u8; 32], s: &Sc, m0: &[u8]) -> Option<(Vec<u8>, [u8; 64])> {
    let sb = Pt::base(s);
    for tr in 0..64u8 {
        let mut m = m0.to_vec();
        if tr > 0 { m.push(tr) }
        for j in 0..8u64 {
            let r = sb.add(&a.neg().mul(&sc_small(j))).enc();
            let k = hram(&r, pk, &m);
            // k acts modulo the order of A, which divides 8 (k itself is below L)
            if k[0] as u64 & 7 == j { let mut g = [0; 64]; g[..32].copy_from_slice(&r); g[32..].copy_from_slice(s); return Some((m, g)) }
        }
    }
    None
}
fn scalar_grid(i: u64) -> (Sc, Sc) { let e = edge_scalars(); let n = e.len() as u64; (e[(i % n) as usize], e[(i / n % n) as usize]) }
pub fn c15(t: bool) -> Vec<Family> {
    let e = edge_scalars().len() as u64;
    let ml = if t { 3000u64 } else { 700 };
    let (nc, cl) = if t { (3000u64, 2500u64) } else { (150, 250) };
    let mut v = vec![
        fam("own-signatures", format!("3 keys x every message length 0..={ml}: what the library signs, the library verifies"), 3 * (ml + 1), |i, c| {
            let seed: B32 = mixa(5000 + i % 3);
            let m = pat(2, (i / 3) as usize);
            let (pk, sig) = (ed::gen_pk(&seed), ed::sign(&m, &seed));
            verify_as(c, &m, &sig, &pk, true, "made by the library");
        }).grain(8),
        fam("secret-bits", "every one- and two-bit secret key: sign then verify", 256 + 32640, |i, c| {
            let seed = if i < 256 { bits(&[i as usize]) } else { let (a, b) = pair(i - 256, 256); bits(&[a, b]) };
            let m = i.to_be_bytes();
            let (pk, sig) = (ed::gen_pk(&seed), ed::sign(&m, &seed));
            verify_as(c, &m, &sig, &pk, true, "made by the library");
        }).grain(16),
        fam("edge-scalars", format!("every pair (secret scalar a, nonce scalar r) of {e} extreme scalars (0.., L-1.., 2^k +- 1, iL/8, patterns): valid signatures by construction"), e * e, |i, c| {
            let (a, r) = scalar_grid(i);
            let pk = Pt::base(&a).enc();
            let m = pat(2, (i % 40) as usize);
            let g = sign_with(&a, &r, &pk, &m);
            cover_slide(c, &g[32..].try_into().unwrap());
            must_accept(c, &m, &g, &pk, "extreme scalars");
        }).grain(8),
        fam("chosen-S", "8 torsion keys x every S that is an extreme scalar, a single bit, or two bits 2^i+2^j (i, j < 252), or a run of ones: valid by construction (R = SB - kA)", 8 * (e + 252 + 31626 / 4 + 31626 / 4), move |i, c| {
            let (a, x) = (&consts().torsion[(i % 8) as usize], i / 8);
            let s: Sc = if x < e { edge_scalars()[x as usize] } else if x < e + 252 { bits(&[(x - e) as usize]) } else if x < e + 252 + 31626 / 4 { let (p, q) = pair((x - e - 252) * 4 + i % 8 / 2, 252); bits(&[p, q]) } else { let (p, q) = pair((x - e - 252 - 31626 / 4) * 4 + i % 8 / 2, 252); ones(p, q) };
            let pk = a.enc();
            if let Some((m, g)) = small_order_sig(a, &pk, &s, &x.to_le_bytes()) { cover_slide(c, &s); must_accept(c, &m, &g, &pk, "torsion key, chosen S") } else { c.count("no small-order signature found", 1) }
        }).grain(8),
        fam("mixed-keys", format!("keys A = aB + T for the 7 nontrivial torsion points T x {} scalars: signatures satisfying the exact equation, and their neighbours off by a torsion point", if t { 400 } else { 60 }), 7 * if t { 400 } else { 60 }, |i, c| {
            let t = &consts().torsion[1 + (i % 7) as usize];
            let a = if i / 7 < 30 { edge_scalars()[(i / 7) as usize] } else { sc_reduce(&mix(5100 + i, 64)) };
            let pt = Pt::base(&a).add(t);
            let pk = pt.enc();
            let r = sc_reduce(&mix(5200 + i, 64));
            // R = rB - jT with j = k mod 8
            for tr in 0..40u64 {
                let j = tr % 8;
                let m = (i * 64 + tr).to_le_bytes();
                let rp = Pt::base(&r).add(&t.neg().mul(&sc_small(j))).enc();
                let k = hram(&rp, &pk, &m);
                let s = sc_add(&r, &sc_mul(&k, &a));
                let mut g = [0; 64];
                g[..32].copy_from_slice(&rp);
                g[32..].copy_from_slice(&s);
                check_verify(c, &m, &g, &pk, "key with a torsion component");
            }
        }),
        fam("chains", format!("{nc} chains of {cl} library signatures verified by the library, each the next message"), nc, move |i, c| {
            let mut seed: B32 = mixa(5300 + i);
            let mut pk = ed::gen_pk(&seed);
            let mut m = vec![];
            for s in 0..cl {
                let Some(g) = c.must("sign", || hex(&seed), || ed::sign(&m, &seed)) else { return };
                verify_as(c, &m, &g, &pk, true, "made by the library");
                if c.failed() { return }
                m = g.to_vec();
                if s % 8 == 7 { seed = g[32..].try_into().unwrap(); for j in 0..32 { seed[j] ^= g[j] } pk = ed::gen_pk(&seed) }
            }
        }),
    ];
    v.push(fam("long-messages", "messages of 4096, 65536, 1048577 and 2^29 + 5 bytes", 4, |i, c| {
        let k = ed_key(&mixa(5400 + i));
        let m = if i == 3 { vec![0; (1 << 29) + 5] } else { pat(2, [4096, 65536, 1048577][i as usize]) };
        let g = ed_sign(&k, &m);
        verify_as(c, &m, &g, &k.pk, true, "long message");
    }));
    v
}
pub fn c16(t: bool) -> Vec<Family> {
    let nk = if t { 60u64 } else { 10 };
    let e = edge_scalars().len() as u64;
    let ny = if t { 20000u64 } else { 2500 };
    let key = |i: u64| -> (EdKey, Vec<u8>, [u8; 64]) { let k = ed_key(&mixa(6000 + i)); let m = pat(2, [0usize, 1, 32, 77, 5, 128, 16, 9][(i % 8) as usize]); let g = ed_sign(&k, &m); (k, m, g) };
    vec![
        fam("bit-flips", format!("{nk} signatures: every single bit of signature, public key and message flipped"), nk * (512 + 256 + 1024), move |i, c| {
            let (k, m, g) = key(i % nk);
            let b = (i / nk) as usize;
            let (mut m2, mut g2, mut p2) = (m.clone(), g, k.pk);
            let why = if b < 512 { flip(&mut g2, b); "bit of the signature flipped" } else if b < 768 { flip(&mut p2, b - 512); "bit of the key flipped" } else if b - 768 < 8 * m.len() { flip(&mut m2, b - 768); "bit of the message flipped" } else { return };
            check_verify(c, &m2, &g2, &p2, why);
        }).grain(8),
        fam("R-compared-exactly", "identity key (R does not influence the right side): every 1-bit and every 2-bit change of R, every byte value at every byte of R, for 4 values of S", 4 * (256 + 32640 / 2 + 8192), |i, c| {
            let s: Sc = [sc_small(1), sc_small(0), sc_reduce(&mix(6100, 64)), edge_scalars()[1]][(i % 4) as usize];
            let x = i / 4;
            let pk = Pt::id().enc();
            let r = Pt::base(&s).enc();
            let mut g = [0u8; 64];
            g[..32].copy_from_slice(&r);
            g[32..].copy_from_slice(&s);
            if x < 256 { flip(&mut g, x as usize) }
            else if x < 256 + 16320 { let (a, b) = pair((x - 256) * 2 + i % 2, 256); flip(&mut g, a); flip(&mut g, b) }
            else { let y = x - 256 - 16320; g[(y % 32) as usize] = (y / 32) as u8 }
            let want = g[..32] == r;
            assert_eq!(want, ed_verify(b"m", &g, &pk));
            verify_as(c, b"m", &g, &pk, want, "identity key, R altered");
        }).grain(16),
        fam("S-changes", "identity key and fixed R = sB: every 1-bit and 2-bit change of S, S + iL for every i that fits, S +- small", 3 * (256 + 32640 / 4 + 16 + 16), |i, c| {
            let s: Sc = [sc_small(5), sc_reduce(&mix(6200, 64)), edge_scalars()[3]][(i % 3) as usize];
            let x = i / 3;
            let pk = Pt::id().enc();
            let mut g = [0u8; 64];
            g[..32].copy_from_slice(&Pt::base(&s).enc());
            let mut s2 = s;
            if x < 256 { flip(&mut s2, x as usize) }
            else if x < 256 + 8160 { let (a, b) = pair((x - 256) * 4 + i % 4, 256); flip(&mut s2, a); flip(&mut s2, b) }
            else if x < 256 + 8160 + 16 { match add_l(&s, (x - 256 - 8160) as u32) { Some(v) => s2 = v, None => return } }
            else { s2 = sc_add(&s, &sc_small(x - 256 - 8160 - 16)) }
            g[32..].copy_from_slice(&s2);
            check_verify(c, b"mm", &g, &pk, "S altered");
        }).grain(16),
        fam("S-boundary", "torsion keys: S running over L - 40 .. L + 40, iL - 3 .. iL + 3, 2^252.., 2^253 -1.., 2^256 - 1..: R always equals SB - kA", 8 * (81 + 15 * 7 + 30), |i, c| {
            let a = &consts().torsion[(i % 8) as usize];
            let x = i / 8;
            let l = l_big();
            let s = if x < 81 { l.add(&Big::from_u64(x)).sub(&Big::from_u64(40)) } else if x < 81 + 105 { let y = x - 81; l.mul(&Big::from_u64(1 + y / 7)).add(&Big::from_u64(y % 7)).sub(&Big::from_u64(3)) } else { let y = x - 186; Big::pow2([252usize, 253, 254, 255, 256][(y / 6) as usize]).sub(&Big::from_u64(3)).add(&Big::from_u64(if y / 6 == 4 { y % 3 } else { y % 6 })) };
            if s.bits() > 256 { return }
            let s: B32 = s.to_le();
            let pk = a.enc();
            let red = sc_reduce(&s);
            // build for the reduced scalar, then put the unreduced one in
            if let Some((m, mut g)) = small_order_sig(a, &pk, &red, b"") { g[32..].copy_from_slice(&s); let w = check_verify(c, &m, &g, &pk, "S at the group order"); assert_eq!(w, s == red) }
        }),
        fam("malleability", format!("{nk} honest signatures: S + iL for every i that fits, L - S, -R"), nk * 18, move |i, c| {
            let (k, m, g) = key(i % nk);
            let s: Sc = g[32..].try_into().unwrap();
            let mut g2 = g;
            match i / nk { j if j < 16 => match add_l(&s, j as u32) { Some(v) => g2[32..].copy_from_slice(&v), None => return }, 16 => g2[32..].copy_from_slice(&sc_neg(&s)), _ => g2[31] ^= 0x80 }
            check_verify(c, &m, &g2, &k.pk, "S + iL, -S, -R");
        }),
        fam("signature-lengths", "every signature length 0..=200 (prefix or extension of a right signature) and empty; 2 keys", 2 * 201, move |i, c| {
            let (k, m, g) = key(i % 2);
            let l = (i / 2) as usize;
            let mut v = g.to_vec();
            v.resize(l, if i % 2 == 0 { 0 } else { 0xff });
            verify_as(c, &m, &v, &k.pk, l == 64, "signature length");
        }),
        fam("huge-signatures", "2 keys x right signatures followed by 2^24, 2^32, 2^33, 2^36 zero bytes, and as many zero bytes alone", 16, move |i, c| {
            let (k, m, g) = key(i % 2);
            let x = (i / 2) as usize;
            let l = [1usize << 24, 1 << 32, 1 << 33, 1 << 36][x % 4] + if x < 4 { 64 } else { 0 };
            let Some(s) = crate::mem::Long::new(l, if x < 4 { &g } else { &[] }) else { c.count("address space refused", 1); return };
            let d = || format!("signature of {l} bytes");
            let Some(r) = c.must("verify", d, || ed::verify(&m, s.get(), &k.pk)) else { return };
            if r { c.fail(|| format!("accepted: {}", d())) }
            c.trace(1, h(&[&k.pk, &l.to_le_bytes()]), r as u64);
        }),
        fam("non-canonical-points", "every combination of encodings (canonical, y + p, x = 0 with the sign bit, both) of the 8 small-order points and of all y in p..2^255 as key and as R, with S = 0 and S = 5 and messages tried until k is every residue mod 8", 14 * 60 * 2, |i, c| {
            let enc = odd_encodings();
            let (kx, rx, sv) = (i % 14, i / 14 % 60, i / 840);
            let pk = enc.small[(kx as usize) % enc.small.len()];
            let s = sc_small(sv * 5);
            for tr in 0..24u8 {
                let m = [tr];
                let mut g = [0u8; 64];
                if sv == 0 { if rx as usize >= enc.all.len() { return } g[..32].copy_from_slice(&enc.all[rx as usize]) }
                else { let t = &consts().torsion[(rx % 8) as usize]; g[..32].copy_from_slice(&Pt::base(&s).add(t).enc()) }
                g[32..].copy_from_slice(&s);
                check_verify(c, &m, &g, &pk, "special encodings of key and R");
            }
        }),
        fam("high-keys", "every key encoding y in p..2^255 (19 values) and y in 2^255-19-20.. with both signs, R = SB - jA for every j mod 8 where A decodes leniently", 39 * 2 * 16, |i, c| {
            let y: B32 = p_big().sub(&Big::from_u64(20)).add(&Big::from_u64(i % 39)).to_le();
            let mut pk = y;
            if i / 39 % 2 == 1 { pk[31] |= 0x80 }
            let (j, sv) = (i / 78 % 8, i / 624);
            let s = sc_small(sv * 7);
            let Some(a) = Pt::from_y(F::from_le(&y), 0) else { check_verify(c, b"", &[0; 64], &pk, "high key"); return };
            for sgn in [false, true] {
                let aa = if sgn { a.neg() } else { a };
                for tr in 0..12u8 {
                    let mut g = [0u8; 64];
                    g[..32].copy_from_slice(&Pt::base(&s).add(&aa.neg().mul(&sc_small(j))).enc());
                    g[32..].copy_from_slice(&s);
                    check_verify(c, &[tr], &g, &pk, "key with y not below p");
                }
            }
        }),
        fam("key-encodings", format!("keys with y = 0..{ny} and p-1-0..{ny}, both signs (on the curve or not): decoded exactly as RFC 8032 says, no panic"), 4 * ny, move |i, c| {
            let y = i / 4;
            let mut pk: B32 = if i % 2 == 0 { Big::from_u64(y).to_le() } else { p_big().sub(&Big::from_u64(y + 1)).to_le() };
            if i / 2 % 2 == 1 { pk[31] |= 0x80 }
            let mut g = [0u8; 64];
            g[..32].copy_from_slice(&Pt::base(&sc_small(3)).enc());
            g[32] = 3;
            check_verify(c, b"x", &g, &pk, "arbitrary key");
            // if the key decoded to anything with x = 0 or was ignored, R = SB would be accepted
            check_verify(c, b"x", &[0; 64], &pk, "arbitrary key, zero signature");
        }).grain(8),
        fam("wrong-key-or-message", format!("all ordered pairs of {} keys and of as many messages: only the matching ones verify", if t { 70 } else { 24 }), if t { 70 * 70 } else { 24 * 24 }, move |i, c| {
            let n = if t { 70 } else { 24 };
            let (a, b) = (i % n, i / n);
            let (k, k2) = (ed_key(&mixa(6400 + a)), ed_key(&mixa(6400 + b)));
            let (m, m2) = (pat(5 + a, (a % 50) as usize), pat(5 + b, (b % 50) as usize));
            let g = ed_sign(&k, &m);
            check_verify(c, &m, &g, &k2.pk, "other key");
            check_verify(c, &m2, &g, &k.pk, "other message");
            let g2 = ed_sign(&k, &m2);
            let mut mixed = g; mixed[..32].copy_from_slice(&g2[..32]); check_verify(c, &m, &mixed, &k.pk, "R of another signature");
            let mut mixed = g; mixed[32..].copy_from_slice(&g2[32..]); check_verify(c, &m, &mixed, &k.pk, "S of another signature");
        }),
        fam("message-moves", "messages extended, truncated, or with a byte moved between R, key and message end", 4 * 64, move |i, c| {
            let (k, m, g) = key(8 + i % 4);
            let x = (i / 4) as usize;
            let mut m2 = m.clone();
            if x < 32 { m2.extend(std::iter::repeat(0).take(x)) } else { m2.truncate(m.len().saturating_sub(x - 32)) }
            check_verify(c, &m2, &g, &k.pk, "message extended or truncated");
        }),
        fam("edge-scalar-forgeries", format!("{e} extreme S with extreme R points and honest keys: refused unless the equation holds"), e * 12, move |i, c| {
            let s = edge_scalars()[(i % e) as usize];
            let (k, m, _) = key(i / e);
            let mut g = [0u8; 64];
            let r = if i / e % 2 == 0 { Pt::base(&s).enc() } else { Pt::id().enc() };
            g[..32].copy_from_slice(&r);
            g[32..].copy_from_slice(&s);
            check_verify(c, &m, &g, &k.pk, "forgery");
        }),
        fam("arbitrary-bytes", format!("{} deterministic arbitrary signature/key/message triples, all-zero and all-one fields: no panic, refused", if t { 200000 } else { 20000 }), if t { 200000 } else { 20000 }, |i, c| {
            let mut pk: B32 = mixa(7000 + i);
            let mut g: [u8; 64] = mixa(307000 + i);
            match i % 8 { 1 => g[63] &= 0x0f, 2 => pk = [0xff; 32], 3 => g[..32].fill(0xff), 4 => g[32..].fill(0xff), 5 => g[..32].fill(0), 6 => { g[32..].fill(0) } 7 => { pk = [0; 32]; g[63] &= 0x1f } _ => {} }
            check_verify(c, &mix(i, (i % 70) as usize), &g, &pk, "arbitrary bytes");
        }).grain(16),
    ]
}
struct Enc { small: Vec<B32>, all: Vec<B32> }
fn odd_encodings() -> &'static Enc {
    static S: OnceLock<Enc> = OnceLock::new();
    S.get_or_init(|| {
        let p = p_big();
        let mut small: Vec<B32> = vec![];
        for t in &consts().torsion { small.push(t.enc()) }
        // x = 0 with the sign bit: (0, 1) and (0, -1)
        for y in [Big::one(), p.sub(&Big::one())] { let mut e: B32 = y.to_le(); e[31] |= 0x80; small.push(e) }
        // y not below p: p (y = 0) with both signs, p + 1 (y = 1) with both signs
        for d in 0..2u64 { for sg in 0..2u8 { let mut e: B32 = p.add(&Big::from_u64(d)).to_le(); e[31] |= sg << 7; small.push(e) } }
        let mut all = small.clone();
        for d in 2..19u64 { for sg in 0..2u8 { let mut e: B32 = p.add(&Big::from_u64(d)).to_le(); e[31] |= sg << 7; all.push(e) } }
        all.push([0xff; 32]);
        Enc { small, all }
    })
}
