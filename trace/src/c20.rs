//! C20: one class = one operation with all public lengths fixed. Within a class every execution, whatever the
//! contents of keys, messages, scalars, nonces, data and tags, must produce the same sequence of edges and addresses
//! (for operations that accept or refuse: the same for all accepted, and the same for all refused).
use crate::engine::*;
use crate::{refs, steer::*};
use std::sync::{Arc, OnceLock};

/// All inputs and outputs of a call, always at the same place.
#[repr(align(64))]
pub struct In { pub key: [u8; 512], pub nonce: [u8; 64], pub aad: [u8; 1024], pub msg: [u8; 1024], pub tag: [u8; 128], pub out: [u8; 1088], pub outcome: u64 }
pub fn new_in() -> Box<In> { Box::new(In { key: [0; 512], nonce: [0; 64], aad: [0; 1024], msg: [0; 1024], tag: [0; 128], out: [0; 1088], outcome: 0 }) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Aes(u8), Enc(u8), Dec(u8), Stream, Mac(u8), MacParts(u8), MacVerify(u8), XPk, XDh, EdPk, EdSign, Verify16, Kdf(u8), Hash(u8), LeakCompare, LeakTable, LeakBranch, LeakSlices }
/// Lengths: key, nonce, data, message, tag.
#[derive(Clone, Copy, Debug)]
pub struct Len { pub k: usize, pub n: usize, pub a: usize, pub m: usize, pub t: usize }
pub type Make = Arc<dyn Fn(u64, &mut In) + Send + Sync>;
pub struct Class { pub name: String, pub op: Op, pub len: Len, pub n: u64, pub make: Make }

#[inline(never)]
pub fn exec(op: Op, l: Len, x: &mut In) {
    x.outcome = match op {
        Op::Aes(k) => { let o = drv::aes_new(k, &x.key[..l.k]); let b: &[u8; 16] = (&x.msg[..16]).try_into().unwrap(); let r = drv::aes_block(&o, b); x.out[..16].copy_from_slice(&r); 0 }
        Op::Enc(k) => { let o = drv::aead_new(k, &x.key[..l.k]); let t = drv::aead_enc(&o, &x.msg[..l.m], &x.nonce[..l.n], &x.aad[..l.a], &mut x.out[..l.m]); x.tag[..16].copy_from_slice(&t); 0 }
        Op::Dec(k) => { let o = drv::aead_new(k, &x.key[..l.k]); drv::aead_dec(&o, &x.msg[..l.m], &x.nonce[..l.n], &x.aad[..l.a], &x.tag[..l.t], &mut x.out[..l.m]) as u64 }
        Op::Stream => { drv::stream(&x.key[..32], &x.nonce[..12], &x.msg[..l.m], &mut x.out[..l.m]); 0 }
        Op::Mac(a) => { drv::mac(a, &x.key[..l.k], &x.msg[..l.m], &mut x.out[..64]); 0 }
        Op::MacParts(a) => { drv::mac_parts(a, &x.key[..l.k], &x.msg[..l.m], l.m / 3, &mut x.out[..64]); 0 }
        Op::MacVerify(a) => drv::mac_verify(a, &x.key[..l.k], &x.msg[..l.m], &x.tag[..l.t]) as u64,
        Op::XPk => { let r = drv::x_pk(&x.key[..32]); x.out[..32].copy_from_slice(&r); 0 }
        Op::XDh => { let r = drv::x_dh(&x.msg[..32], &x.key[..32]); x.out[..32].copy_from_slice(&r); 0 }
        Op::EdPk => { let r = drv::ed_pk(&x.key[..32]); x.out[..32].copy_from_slice(&r); 0 }
        Op::EdSign => { let r = drv::ed_sign(&x.msg[..l.m], &x.key[..32]); x.out[..64].copy_from_slice(&r); 0 }
        Op::Verify16 => { let a: &[u8; 16] = (&x.key[..16]).try_into().unwrap(); drv::verify16(a, &x.tag[..l.t]) as u64 }
        // salt, input keying material, info, output length
        Op::Kdf(a) => { drv::kdf(a, &x.nonce[..l.n], &x.key[..l.k], &x.aad[..l.a], &mut x.out[..l.m]); 0 }
        Op::Hash(a) => { drv::digest(a, &x.msg[..l.m], &mut x.out[..64]); 0 }
        Op::LeakCompare => drv::leak_compare(&x.key[..16], &x.msg[..16]) as u64,
        Op::LeakTable => { x.out[0] = drv::leak_table(x.key[0]); 0 }
        Op::LeakBranch => { x.out[0] = drv::leak_branch(x.key[0]); 0 }
        Op::LeakSlices => drv::leak_slices(&x.key[..40], &x.msg[..40]) as u64,
    };
}

// ---------------------------------------------------------------- alphabets
/// The `i`-th content of a byte string: 0 is the base; then uniform fills, every single-bit change of the base, every
/// lone bit, every byte position with each of `edge` values, then further mixed strings.
const EDGE: [u8; 4] = [0x00, 0xff, 0x80, 0x7f];
pub fn vary(i: u64, len: usize) -> Vec<u8> {
    let base = || mix(77, len);
    if i == 0 || len == 0 { return if i == 0 { base() } else { vec![] } }
    let mut i = i as usize - 1;
    const F: [u8; 8] = [0, 0xff, 0x80, 0x7f, 0x55, 0xaa, 1, 0xfe];
    if i < F.len() { return vec![F[i]; len] }
    i -= F.len();
    if i < 8 * len { let mut v = base(); flip(&mut v, i); return v }
    i -= 8 * len;
    if i < 8 * len { let mut v = vec![0; len]; flip(&mut v, i); return v }
    i -= 8 * len;
    if i < 4 * len { let mut v = base(); v[i / 4] = EDGE[i % 4]; return v }
    i -= 4 * len;
    mix(1000 + i as u64, len)
}
pub fn varies(len: usize, mixes: u64) -> u64 { 9 + 20 * len as u64 + mixes }
/// Spreads one varied string over several fields.
fn spread(i: u64, fields: &mut [&mut [u8]]) {
    let v = vary(i, fields.iter().map(|f| f.len()).sum());
    let mut p = 0;
    for f in fields { let l = f.len(); f.copy_from_slice(&v[p..p + l]); p += l }
}
fn class(name: String, op: Op, len: Len, n: u64, make: impl Fn(u64, &mut In) + Send + Sync + 'static) -> Class { Class { name, op, len, n, make: Arc::new(make) } }
const KN: [&str; 5] = ["aes128gcm", "aes192gcm", "aes256gcm", "chacha20poly1305", "gcm-any-H"];
const KL: [usize; 5] = [16, 24, 32, 32, 32];
const HN: [&str; 4] = ["sha224", "sha256", "sha384", "sha512"];
const HB: [usize; 4] = [64, 64, 128, 128];
const HS: [usize; 4] = [28, 32, 48, 64];

/// Makes a correct (ciphertext, tag) for the decryption classes with the library itself.
fn seal_in_place(k: u8, l: Len, x: &mut In) {
    let o = drv::aead_new(k, &x.key[..l.k]);
    let mut c = [0; 1024];
    let t = drv::aead_enc(&o, &x.msg[..l.m], &x.nonce[..l.n], &x.aad[..l.a], &mut c[..l.m]);
    x.msg[..l.m].copy_from_slice(&c[..l.m]);
    x.tag[..16].copy_from_slice(&t);
}
/// (data length, message length) pairs.
fn shapes(t: bool) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0), (0, 1), (5, 0), (0, 16), (20, 17), (16, 31), (13, 64), (0, 65), (33, 100)];
    if t { v.extend([(1, 15), (15, 48), (17, 33), (32, 63), (64, 128), (100, 129), (0, 255), (200, 256), (0, 257), (3, 600)]) }
    v
}
/// All classes. `lite`: the smaller selection for the slow machine-level pass.
pub fn classes(t: bool, lite: bool) -> Vec<Class> {
    let mut v: Vec<Class> = vec![];
    let some = |n: u64, lim: u64| if lite { n.min(lim) } else { n };
    let mx = if t { 4000 } else { 300 };
    // AES: every value of every byte of key and block
    for k in 0..3u8 {
        let kl = KL[k as usize];
        let tot = kl + 16;
        v.push(class(format!("aes{} block", 8 * kl), Op::Aes(k), Len { k: kl, n: 0, a: 0, m: 16, t: 0 }, some(varies(tot, mx) + 256 * tot as u64, if t { 4000 } else { 300 }), move |i, x| {
            let nv = varies(tot, mx);
            let i = if lite { i * 7 } else { i };
            if i < nv { spread(i, &mut [&mut x.key[..kl], &mut x.msg[..16]]) }
            else { let j = (i - nv) as usize; let mut b = vec![0u8; tot]; b.copy_from_slice(&mix(5, tot)); b[j / 256 % tot] = j as u8; x.key[..kl].copy_from_slice(&b[..kl]); x.msg[..16].copy_from_slice(&b[kl..]) }
        }));
    }
    for k in 0..5u8 {
        let kl = KL[k as usize];
        for (si, (a, m)) in shapes(t).into_iter().enumerate() {
            if lite && !t && ![0, 4, 6].contains(&si) { continue }
            let l = Len { k: kl, n: 12, a, m, t: 16 };
            let tot = kl + 12 + a + m;
            let n = varies(tot, mx);
            let step = if lite { 17 } else { 1 };
            let nn = if lite { if t { n / step } else { (n / step).min(48) } } else { n };
            v.push(class(format!("{} encrypt data {a} message {m}", KN[k as usize]), Op::Enc(k), l, nn, move |i, x| spread(i * step, &mut [&mut x.key[..kl], &mut x.nonce[..12], &mut x.aad[..a], &mut x.msg[..m]])));
            v.push(class(format!("{} decrypt (right tag) data {a} message {m}", KN[k as usize]), Op::Dec(k), l, nn, move |i, x| { spread(i * step, &mut [&mut x.key[..kl], &mut x.nonce[..12], &mut x.aad[..a], &mut x.msg[..m]]); seal_in_place(k, l, x) }));
            // refused: every difference between the offered and the right tag
            let d = if lite { 40 } else if si == 4 || t { 128 + 8128 + 16 * 255 + n } else { 128 + 16 * 8 + n / 4 };
            let all2 = si == 4 || t;
            v.push(class(format!("{} decrypt (wrong tag) data {a} message {m}", KN[k as usize]), Op::Dec(k), l, d, move |i, x| {
                spread(0, &mut [&mut x.key[..kl], &mut x.nonce[..12], &mut x.aad[..a], &mut x.msg[..m]]);
                let i = if lite { i * 5 } else { i };
                if i < 128 { seal_in_place(k, l, x); flip(&mut x.tag, i as usize); return }
                let mut j = i as usize - 128;
                if all2 && !lite {
                    if j < 8128 { seal_in_place(k, l, x); let (p, q) = pair(j); flip(&mut x.tag, p); flip(&mut x.tag, q); return }
                    j -= 8128;
                    if j < 16 * 255 { seal_in_place(k, l, x); x.tag[j / 255] ^= (j % 255 + 1) as u8; return }
                    j -= 16 * 255;
                } else {
                    if j < 128 { seal_in_place(k, l, x); for p in j / 8..16 { x.tag[p] ^= 1 << (j % 8) } return }
                    j -= 128;
                }
                // other contents, tag from elsewhere or all different
                spread(j as u64, &mut [&mut x.key[..kl], &mut x.nonce[..12], &mut x.aad[..a], &mut x.msg[..m]]);
                seal_in_place(k, l, x);
                for p in 0..16 { x.tag[p] = match j % 3 { 0 => !x.tag[p], 1 => 0, _ => x.tag[p].wrapping_add(p as u8 + 1) } }
            }));
        }
        // tag lengths other than 16 are refused; one class per length
        if !lite { for tl in [0usize, 1, 12, 15, 17, 32] {
            let l = Len { k: kl, n: 12, a: 7, m: 20, t: tl };
            v.push(class(format!("{} decrypt tag of {tl} bytes", KN[k as usize]), Op::Dec(k), l, varies(16 + kl, 50), move |i, x| { spread(i, &mut [&mut x.key[..kl], &mut x.msg[..16]]); x.msg[16..20].fill(3); x.nonce[..12].fill(4); x.aad[..7].fill(5); seal_in_place(k, Len { t: 16, ..l }, x); x.tag[16..32].fill(i as u8) }));
        } }
    }
    // GHASH with chosen H
    {
        let l = Len { k: 32, n: 12, a: 32, m: 32, t: 16 };
        v.push(class("gcm-any-H encrypt, H and data every 1-bit, prefix and suffix value".into(), Op::Enc(4), l, some(384 * 40, 200), move |i, x| {
            let i = if lite { i * 77 } else { i };
            let hb = |j: u64| -> [u8; 16] { match j / 128 { 0 => 1u128 << j, 1 => u128::MAX << (j % 128), _ => u128::MAX >> (j % 128) }.to_be_bytes() };
            x.key[..16].copy_from_slice(&hb(i % 384)); x.key[16..32].fill(9); x.nonce[..12].fill(1);
            let d = hb(i / 384 * 9 % 384);
            x.aad[..16].copy_from_slice(&d); x.aad[16..32].fill(0); x.msg[..32].fill(i as u8);
        }));
    }
    // GHASH with chosen values before each multiplication, and chosen final values
    {
        let all = ghash_values();
        for (si, st) in ["the data block", "the first ciphertext block", "the second ciphertext block", "the length block", "the result"].iter().enumerate() {
            for dec in [false, true] {
                if lite && si == 0 { continue }
                let l = Len { k: 32, n: 12, a: 16, m: 32, t: 16 };
                let all = all.clone();
                let hs = if lite { 1 } else if t { 40 } else { 6 };
                let nv = all.len() as u64;
                v.push(class(format!("gcm-any-H {}, GHASH argument steered to {nv} values at {st}", if dec { "decrypt" } else { "encrypt" }), if dec { Op::Dec(4) } else { Op::Enc(4) }, l, if lite { nv / 4 } else { nv * hs }, move |i, x| {
                    let i = if lite { i * 4 } else { i };
                    let target = all[(i % nv) as usize];
                    let key = mix(300 + i / nv, 32);
                    let hk = u128::from_be_bytes(key[..16].try_into().unwrap());
                    x.key[..32].copy_from_slice(&key); x.nonce[..12].fill(6);
                    let mut a = u128::from_be_bytes(mix(301 + i / nv, 16).try_into().unwrap());
                    let mut c = [a ^ 1, a ^ 2];
                    let lens = 128u128 << 64 | 256;
                    let mul = |y: u128| refs::sym::gf_mul(y, hk);
                    match si {
                        0 => a = target,
                        1 => c[0] = mul(a) ^ target,
                        2 => c[1] = mul(mul(a) ^ c[0]) ^ target,
                        s => {
                            // the value after the second ciphertext block
                            let y = (if s == 3 { target } else { gf_div(target, hk) }) ^ lens;
                            c[1] = mul(mul(a) ^ c[0]) ^ gf_div(y, hk);
                        }
                    }
                    x.aad[..16].copy_from_slice(&a.to_be_bytes());
                    for j in 0..2 {
                        let mut ctr = [6u8; 16]; ctr[12..].copy_from_slice(&[0, 0, 0, 2 + j as u8]);
                        let cb = c[j].to_be_bytes();
                        for b in 0..16 { x.msg[16 * j + b] = cb[b] ^ ctr[b] ^ key[16 + b] }
                    }
                    if dec { seal_in_place(4, l, x); assert_eq!(x.msg[..16], c[0].to_be_bytes()) }
                }));
            }
        }
    }
    // Poly1305 with extreme accumulators
    {
        let l = Len { k: 32, n: 12, a: 3, m: 32, t: 16 };
        let tg = poly_targets(7).len() as u64;
        let last: Arc<Vec<_>> = Arc::new(poly_msgs(if lite { 1 } else if t { 40 } else { 6 }, true));
        let mid: Arc<Vec<_>> = Arc::new(poly_msgs(if lite { 1 } else if t { 40 } else { 6 }, false));
        for (nm, ms, m) in [("before the last addition", last, 32usize), ("between two blocks", mid, 48)] {
            for dec in [false, true] {
                let ms = ms.clone();
                v.push(class(format!("chacha20poly1305 {}, accumulator steered to {tg} extreme values {nm}", if dec { "decrypt" } else { "encrypt" }), if dec { Op::Dec(3) } else { Op::Enc(3) }, Len { m, ..l }, ms.len() as u64, move |i, x| {
                    let (k, ms) = &ms[i as usize];
                    x.key[..32].copy_from_slice(k); x.nonce[..12].fill(6); x.aad[..3].fill(1); x.msg[..m].copy_from_slice(ms);
                    if dec { seal_in_place(3, Len { m, ..l }, x) }
                }));
            }
        }
    }
    for m in [0usize, 1, 64, 130] {
        if lite && m != 130 { continue }
        v.push(class(format!("chacha20 stream, {m} bytes"), Op::Stream, Len { k: 32, n: 12, a: 0, m, t: 0 }, some(varies(44 + m, mx), 150), move |i, x| spread(i, &mut [&mut x.key[..32], &mut x.nonce[..12], &mut x.msg[..m]])));
    }
    for a in 0..4u8 {
        let (b, s) = (HB[a as usize], HS[a as usize]);
        for (ki, kl) in [0usize, 1, 20, b - 1, b, b + 1, 2 * b + 3].into_iter().enumerate() {
            for (mi, m) in [0usize, 1, b - 17, b, 2 * b + 5].into_iter().enumerate() {
                if lite && !(ki == 2 && mi == 4 || ki == 5 && mi == 1) { continue }
                let tot = kl + m;
                let n = varies(tot, if t { 300 } else { 40 });
                let step = if lite { 37 } else { 1 };
                let nn = some(n, 40);
                v.push(class(format!("hmac-{} key {kl} message {m}", HN[a as usize]), if mi % 2 == 0 { Op::Mac(a) } else { Op::MacParts(a) }, Len { k: kl, n: 0, a: 0, m, t: 0 }, nn, move |i, x| spread(i * step, &mut [&mut x.key[..kl], &mut x.msg[..m]])));
                if mi > 2 && !t { continue }
                let nd = if lite { 60 } else { 16 * s as u64 + 256 * 4 + n / 2 };
                v.push(class(format!("hmac-{} verify key {kl} message {m}", HN[a as usize]), Op::MacVerify(a), Len { k: kl, n: 0, a: 0, m, t: s }, nd, move |i, x| {
                    // item 0: the right tag; then every 1-bit change, every first difference position, byte values, other keys
                    let i = if lite { i * 9 } else { i } as usize;
                    let right = |x: &mut In| { let mut o = [0; 64]; drv::mac(a, &x.key[..kl], &x.msg[..m], &mut o); x.tag[..s].copy_from_slice(&o[..s]) };
                    spread(0, &mut [&mut x.key[..kl], &mut x.msg[..m]]);
                    right(x);
                    if i == 0 { return }
                    if i <= 8 * s { flip(&mut x.tag, i - 1); return }
                    if i <= 16 * s { let j = i - 8 * s - 1; for p in j / 8..s { x.tag[p] ^= 1 << (j % 8) } return }
                    let j = i - 16 * s - 1;
                    if j < 1024 { x.tag[[0, 1, s / 2, s - 1][j / 256]] = j as u8; return }
                    spread((j - 1024) as u64, &mut [&mut x.key[..kl], &mut x.msg[..m]]);
                    right(x);
                    if j % 2 == 0 { for p in 0..s { x.tag[p] ^= 0x5a } }
                }));
            }
        }
        if !lite { for tl in [0usize, 1, s - 1, s + 1, 2 * s] {
            v.push(class(format!("hmac-{} verify tag of {tl} bytes", HN[a as usize]), Op::MacVerify(a), Len { k: 20, n: 0, a: 0, m: 30, t: tl }, varies(50, 20), move |i, x| { spread(i, &mut [&mut x.key[..20], &mut x.msg[..30]]); let mut o = [0; 64]; drv::mac(a, &x.key[..20], &x.msg[..30], &mut o); x.tag.fill(i as u8); x.tag[..s].copy_from_slice(&o[..s]) }));
        } }
    }
    for a in 0..4u8 {
        let (b, s) = (HB[a as usize], HS[a as usize]);
        for (mi, m) in [0usize, 1, b - 17, b - 1, b, 2 * b + 5].into_iter().enumerate() {
            if lite && mi != 5 { continue }
            v.push(class(format!("{} of {m} bytes", HN[a as usize]), Op::Hash(a), Len { k: 0, n: 0, a: 0, m, t: 0 }, some(varies(m, mx), 60), move |i, x| { let i = if lite { i * 29 } else { i }; spread(i, &mut [&mut x.msg[..m]]) }));
        }
        for (ki, (sl, kl, il, ol)) in [(0usize, 32usize, 0usize, 16usize), (13, 22, 10, s), (b.min(64), b + 1, 3, s + 1), (1, 1, 50, 3 * s - 5)].into_iter().enumerate() {
            if lite && ki != 3 { continue }
            let tot = sl + kl + il;
            v.push(class(format!("hkdf-{} salt {sl} input {kl} info {il} output {ol}", HN[a as usize]), Op::Kdf(a), Len { k: kl, n: sl, a: il, m: ol, t: 0 }, some(varies(tot, if t { 300 } else { 60 }), 40), move |i, x| { let i = if lite { i * 29 } else { i }; spread(i, &mut [&mut x.key[..kl], &mut x.nonce[..sl], &mut x.aad[..il]]) }));
        }
    }
    v.push(class("verify_16".into(), Op::Verify16, Len { k: 16, n: 0, a: 0, m: 0, t: 16 }, some(1 + 128 + 8128 + 4096, 300), move |i, x| {
        x.key[..16].copy_from_slice(&mix(3, 16)); x.tag[..16].copy_from_slice(&mix(3, 16));
        let i = if lite { i * 41 } else { i } as usize;
        if i == 0 { return }
        if i <= 128 { return flip(&mut x.tag, i - 1) }
        if i <= 128 + 8128 { let (p, q) = pair(i - 129); flip(&mut x.tag, p); flip(&mut x.tag, q); return }
        let j = i - 129 - 8128; x.tag[j / 256] = j as u8
    }));
    // curves: scalars by bits, pairs of bits, runs, bytes; points of every special kind; steered results
    let k0 = Len { k: 32, n: 0, a: 0, m: 32, t: 0 };
    let nk = scalar_count(t);
    let st = if lite { if t { 41 } else { 307 } } else { 1 };
    for (nm, op) in [("x25519 public key", Op::XPk), ("x25519 shared secret, generic point", Op::XDh), ("ed25519 public key", Op::EdPk)] {
        let n = if lite { (nk / st).min(if t { 1200 } else { 22 }) } else { nk };
        v.push(class(nm.into(), op, k0, n, move |i, x| { x.key[..32].copy_from_slice(&scalar(i * st)); x.msg[..32].copy_from_slice(&mix(31, 32)) }));
    }
    let (us, ks) = (special_u().len() as u64, special_k().len() as u64);
    let n = us * ks;
    v.push(class(format!("x25519 shared secret, {us} special points x {ks} special scalars"), Op::XDh, k0, if lite { (n / (st / 3)).clamp(16, if t { 2000 } else { 20 }) } else { n }, move |i, x| { let i = if lite { i * (st / 3) } else { i }; x.key[..32].copy_from_slice(&special_k()[(i / us % ks) as usize]); x.msg[..32].copy_from_slice(&special_u()[(i % us) as usize]) }));
    if !lite {
        let nl = if t { 59049 } else { 6000 };
        v.push(class("x25519 shared secret, points with extreme limbs".into(), Op::XDh, k0, nl, move |i, x| { x.key[..32].copy_from_slice(&mix(41, 32)); x.msg[..32].copy_from_slice(&limb_u(i * 59049 / nl, 3)) }));
        v.push(class("x25519 shared secret, results steered to extreme field values".into(), Op::XDh, k0, if t { 4000 } else { 1200 }, move |i, x| {
            let s = &steer_targets()[(i % 2) as usize];
            let q = (i / 2) as usize % s.pts.len();
            let k: B32 = mixa(600 + i / 2 / s.pts.len() as u64);
            x.key[..32].copy_from_slice(&k); x.msg[..32].copy_from_slice(&steer_u(&k, &s.pts[q], &s.n));
        }));
    }
    for m in [0usize, 1, 32, 47, 64, 100, 200] {
        if lite && m != 32 && !(t && m == 200) { continue }
        let n = if lite { if t { 900 } else { 22 } } else if m == 32 || t { nk } else { 1500 };
        v.push(class(format!("ed25519 sign, message of {m} bytes"), Op::EdSign, Len { m, ..k0 }, n, move |i, x| { let i = if lite { i * 101 } else { i }; x.key[..32].copy_from_slice(&scalar(i)); let v = vary(i % 500, m); x.msg[..m].copy_from_slice(&v) }));
    }
    v
}
pub fn pair(mut j: usize) -> (usize, usize) { for p in 0..128 { let r = 127 - p; if j < r { return (p, p + 1 + j) } j -= r } (126, 127) }
pub fn scalar_count(t: bool) -> u64 { 25 + 512 + 1024 + if t { 32640 + 32896 + 20000 } else { 3000 + 2000 } }
pub fn scalar(i: u64) -> B32 {
    let sk = { static S: OnceLock<Vec<B32>> = OnceLock::new(); S.get_or_init(special_k) };
    let mut i = i as usize;
    if i < 25 { return sk[i % sk.len()] }
    i -= 25;
    if i < 256 { return bits(&[i]) }
    i -= 256;
    if i < 256 { let mut b = [0xff; 32]; flip(&mut b, i); return b }
    i -= 256;
    if i < 1024 { let mut b: B32 = mixa(8); b[i / 32] = (i % 32 * 8 + i % 7) as u8; return b }
    i -= 1024;
    if i < 32640 {
        // interleaved so that a prefix of the sequence has pairs from everywhere, and runs of ones
        if i % 3 == 2 { return mixa(9000 + i as u64) }
        let (a, b) = (i * 7919 % 256, i * 104729 / 256 % 256);
        return if i % 3 == 0 { let mut s = [0; 32]; flip(&mut s, a); if a != b { flip(&mut s, b) } s } else { ones(a.min(b), a.max(b) + 1) };
    }
    mixa(500000 + i as u64)
}
fn poly_msgs(keys: u64, last: bool) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    for i in 0..keys {
        let key = mix(i + 900, 32);
        for tg in poly_targets(i as u128 * 77 + 7) { if let Some(m) = steer_poly(&key, &[6; 12], &[1; 3], tg, last) { v.push((key.clone(), m)) } }
    }
    v
}

/// x / y in GF(2^128): y^(2^128 - 2) by repeated squaring.
fn gf_div(x: u128, y: u128) -> u128 {
    let (mut r, mut p) = (x, y);
    for _ in 1..128 { p = refs::sym::gf_mul(p, p); r = refs::sym::gf_mul(r, p) }
    r
}
fn ghash_values() -> Arc<Vec<u128>> {
    let mut v = vec![0, u128::MAX, 1, 1 << 127, 0xe1 << 120, (0xe1 << 120) - 1, u64::MAX as u128, (u64::MAX as u128) << 64, 0x5555_5555_5555_5555_5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa];
    for i in 0..32 { v.push(1 << (4 * i)); v.push(!(1 << (4 * i + 3))) }
    for i in 0..16 { v.push(0xff << (8 * i)); v.push(!(0xff << (8 * i))) }
    Arc::new(v)
}

// ---------------------------------------------------------------- comparison
pub fn record(op: Op, l: Len, x: &mut In, logging: bool) -> (u64, [u64; 16], Option<Vec<rt::Event>>) {
    rt::arena_reset();
    rt::begin(logging);
    exec(op, l, x);
    rt::end()
}
fn describe(x: &In, l: Len) -> String { format!("key {} nonce {} data {} message {} tag {}", show(&x.key[..l.k]), show(&x.nonce[..l.n]), show(&x.aad[..l.a]), show(&x.msg[..l.m]), show(&x.tag[..l.t])) }
/// First difference between two executions of a class.
pub fn explain(cl: &Class, i: u64, j: u64) -> String {
    let mut x = new_in();
    (cl.make)(i, &mut x);
    let d1 = describe(&x, cl.len);
    exec(cl.op, cl.len, &mut x);
    (cl.make)(i, &mut x);
    let a = record(cl.op, cl.len, &mut x, true).2.unwrap();
    (cl.make)(j, &mut x);
    let d2 = describe(&x, cl.len);
    let b = record(cl.op, cl.len, &mut x, true).2.unwrap();
    let p = a.iter().zip(&b).position(|(p, q)| (p.kind, p.addr, p.extra) != (q.kind, q.addr, q.extra)).unwrap_or(a.len().min(b.len()));
    let base = base();
    let ev = |e: Option<&rt::Event>| e.map_or("the end".to_string(), |e| format!("{} {:#x} {:#x} from code offset {:#x}", rt::KINDS[e.kind as usize], e.addr, e.extra, e.pc.wrapping_sub(base)));
    let prev = if p > 0 { a[p - 1].pc.wrapping_sub(base) } else { 0 };
    format!("{}: the trace depends on the data\n  events {} and {} long, first different at event {p}: {} / {}\n  last common event from code offset {prev:#x}\n  PC {:#x} {:#x} {prev:#x}\n  execution {i}: {d1}\n  execution {j}: {d2}", cl.name, a.len(), b.len(), ev(a.get(p)), ev(b.get(p)), a.get(p).map_or(0, |e| e.pc.wrapping_sub(base)), b.get(p).map_or(0, |e| e.pc.wrapping_sub(base)))
}
/// Load address of the executable.
fn base() -> usize {
    let m = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    usize::from_str_radix(m.split('-').next().unwrap_or("0"), 16).unwrap_or(0)
}
const CHUNK: u64 = 600;
fn explore_chunk(cl: &Class, from: u64, c: &mut Ctx) {
    let mut x = new_in();
    // once unrecorded: lazy initialisation
    (cl.make)(0, &mut x);
    exec(cl.op, cl.len, &mut x);
    let mut base: Vec<(u64, u64, u64)> = vec![]; // outcome, trace, item
    let to = (from + CHUNK).min(cl.n);
    for i in std::iter::once(0).chain(from.max(1)..to) {
        (cl.make)(i, &mut x);
        x.out.fill(0);
        let inp = h(&[&x.key[..cl.len.k], &x.nonce[..cl.len.n], &x.aad[..cl.len.a], &x.msg[..cl.len.m], &x.tag[..cl.len.t], cl.name.as_bytes()]);
        let (hs, n, _) = record(cl.op, cl.len, &mut x, false);
        let o = x.outcome;
        c.trace(n.iter().sum(), inp, h(&[&hs.to_le_bytes()]));
        c.count("edges", n[0]);
        c.count("memory accesses and computed addresses", n[1..].iter().sum());
        if n[0] == 0 { panic!("nothing was recorded for {}: the library is not instrumented", cl.name) }
        if i == 0 { c.note(|| format!("{}: {} edges, {} accesses in every one of {} executions", cl.name, n[0], n[1..].iter().sum::<u64>(), cl.n)) }
        match base.iter().find(|b| b.0 == o) {
            None => base.push((o, hs, i)),
            Some(b) if b.1 != hs => { let j = b.2; c.fail(|| explain(cl, j, i)); return }
            _ => {}
        }
    }
}
/// The same classes with fewer contents, evenly taken; for the slow unoptimised build, whose purpose is to see the
/// branches of the sources themselves.
fn thin(c: Class) -> Class {
    let cap = match c.op {
        Op::XPk | Op::XDh | Op::EdPk | Op::EdSign => 300,
        Op::Aes(_) => 4000,
        _ if c.name.contains("steered") => c.n,
        Op::Enc(_) | Op::Dec(_) => 700,
        _ => 100,
    };
    if c.n <= cap { return c }
    let (n, make) = (c.n, c.make.clone());
    Class { n: cap, make: Arc::new(move |i, x: &mut In| make((i as u128 * n as u128 / cap as u128) as u64, x)), ..c }
}
pub fn families(t: bool, thinned: bool) -> Vec<Family> {
    let mut cs = classes(t, false);
    if thinned { cs = cs.into_iter().map(thin).collect() }
    let cs: Arc<Vec<Class>> = Arc::new(cs);
    let mut groups: Vec<(&'static str, Vec<(usize, u64)>)> = ["aes", "gcm", "chacha20", "hmac", "verify_16", "x25519", "ed25519", "sha2", "hkdf"].iter().map(|g| (*g, vec![])).collect();
    for (i, c) in cs.iter().enumerate() {
        let g = if c.name.contains("gcm") { 1 } else if c.name.starts_with("aes") { 0 } else if c.name.starts_with("chacha") { 2 } else if c.name.starts_with("hmac") { 3 } else if c.name.starts_with("verify") { 4 } else if c.name.starts_with("x25519") { 5 } else if c.name.starts_with("sha") { 7 } else if c.name.starts_with("hkdf") { 8 } else { 6 };
        let mut f = 0;
        while f < c.n { groups[g].1.push((i, f)); f += CHUNK }
    }
    groups.into_iter().map(|(g, items)| {
        let cs = cs.clone();
        let k: std::collections::BTreeSet<usize> = items.iter().map(|x| x.0).collect();
        let execs: u64 = k.iter().map(|i| cs[*i].n).sum();
        fam(g, format!("{} classes (operation x public lengths), {execs} contents: uniform, every single bit, edge bytes, mixed, extreme internal values", k.len()), items.len() as u64, move |i, c| { let (k, f) = items[i as usize]; explore_chunk(&cs[k], f, c) })
    }).collect()
}
/// The recorder must see four planted leaks, and must see none in leak-free code.
pub fn selftest() -> Result<(), String> {
    for (op, n, name) in [(Op::LeakCompare, 40, "early exit"), (Op::LeakTable, 40, "table look-up"), (Op::LeakBranch, 40, "branch"), (Op::LeakSlices, 40, "library comparison")] {
        let cl = class(name.into(), op, Len { k: 40, n: 0, a: 0, m: 40, t: 0 }, n, |i, x| { x.key[..40].fill(7); x.msg[..40].fill(7); if matches!(i, 0..) { x.key[(i % 16) as usize] = i as u8; x.msg[0] = 8 + (i / 16) as u8; x.msg[20] ^= 1 } });
        let cl = Class { make: if matches!(op, Op::LeakCompare | Op::LeakSlices) { Arc::new(|i, x: &mut In| { x.key[..40].fill(7); x.msg[..40].fill(7); x.msg[(i % 15) as usize] = 9 }) } else { cl.make.clone() }, ..cl };
        let mut st = Stats::default();
        let mut seen = std::collections::HashSet::new();
        let mut x = new_in();
        for i in 0..cl.n { (cl.make)(i, &mut x); seen.insert(record(op, cl.len, &mut x, false).0); }
        st.traces += 1;
        if seen.len() < 2 { return Err(format!("self-test: the planted leak ({name}) was not seen")) }
    }
    Ok(())
}
