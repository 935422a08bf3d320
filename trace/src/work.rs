//! C26: every call ends, after work (basic blocks entered, memory accesses, bytes moved by memcpy and friends) that is
//! bounded by a linear function of the lengths of its arguments, whatever these contain.
use crate::engine::*;
use std::sync::OnceLock;

struct B { long: Vec<u8>, out: Vec<u8>, small: Vec<u8>, work: u64 }
fn meter<R>(work: &mut u64, f: impl FnOnce() -> R) -> R {
    rt::begin(false);
    let r = f();
    let (_, n, _) = rt::end();
    // kind 11 only computes an address
    *work += n[..11].iter().sum::<u64>() + n[12..].iter().sum::<u64>() + rt::moved();
    r
}
const DIGEST: [usize; 4] = [28, 32, 48, 64];
const KEY: [usize; 5] = [16, 24, 32, 32, 32];

/// Runs the operation with `n` bytes in the argument that varies; false if it gave a wrong verdict.
type Run = Box<dyn Fn(usize, &mut B) -> bool + Send + Sync>;
struct Op { name: String, most: usize, run: Run }
fn op(name: String, most: usize, run: impl Fn(usize, &mut B) -> bool + Send + Sync + 'static) -> Op { Op { name, most, run: Box::new(run) } }
const ALL: usize = usize::MAX;

fn table() -> &'static [Op] {
    static T: OnceLock<Vec<Op>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        for a in 0..4u8 {
            let d = DIGEST[a as usize];
            let s = ["sha224", "sha256", "sha384", "sha512"][a as usize];
            v.push(op(format!("{s} in one update"), ALL, move |n, b| { meter(&mut b.work, || drv::digest(a, &b.long[..n], &mut b.out[..64])); true }));
            v.push(op(format!("{s} in one-byte and empty updates"), ALL, move |n, b| { meter(&mut b.work, || drv::digest_pieces(a, &b.long[..n], &mut b.out[..64])); true }));
            v.push(op(format!("hmac-{s} key"), ALL, move |n, b| { meter(&mut b.work, || drv::mac(a, &b.long[..n], &b.small[..9], &mut b.out[..64])); true }));
            v.push(op(format!("hmac-{s} message"), ALL, move |n, b| { meter(&mut b.work, || drv::mac_parts(a, &b.small[..20], &b.long[..n], n / 3, &mut b.out[..64])); true }));
            v.push(op(format!("hmac-{s} verify, right tag"), ALL, move |n, b| {
                drv::mac(a, &b.small[..20], &b.long[..n], &mut b.out[..64]);
                meter(&mut b.work, || drv::mac_verify(a, &b.small[..20], &b.long[..n], &b.out[..d]))
            }));
            v.push(op(format!("hmac-{s} verify, wrong tag"), ALL, move |n, b| !meter(&mut b.work, || drv::mac_verify(a, &b.small[..20], &b.long[..n], &b.small[..d]))));
            v.push(op(format!("hmac-{s} verify, tag length"), ALL, move |n, b| !meter(&mut b.work, || drv::mac_verify(a, &b.small[..20], &b.small[..30], &b.long[..n]))));
            v.push(op(format!("hkdf-{s} salt"), ALL, move |n, b| { meter(&mut b.work, || drv::kdf(a, &b.long[..n], &b.small[..30], &b.small[..9], &mut b.out[..64])); true }));
            v.push(op(format!("hkdf-{s} input key"), ALL, move |n, b| { meter(&mut b.work, || drv::kdf(a, &b.small[..9], &b.long[..n], &b.small[..9], &mut b.out[..64])); true }));
            v.push(op(format!("hkdf-{s} info"), ALL, move |n, b| { meter(&mut b.work, || drv::kdf(a, &b.small[..9], &b.small[..30], &b.long[..n], &mut b.out[..d + 1])); true }));
            v.push(op(format!("hkdf-{s} output"), 255 * d, move |n, b| { meter(&mut b.work, || drv::kdf(a, &b.small[..9], &b.small[..30], &b.small[..5], &mut b.out[..n])); true }));
        }
        for k in 0..5u8 {
            let s = ["aes128gcm", "aes192gcm", "aes256gcm", "chacha20poly1305", "gcm of a cheap cipher"][k as usize];
            let l = KEY[k as usize];
            v.push(op(format!("{s} encrypt message"), ALL, move |n, b| { meter(&mut b.work, || { let o = drv::aead_new(k, &b.small[..l]); drv::aead_enc(&o, &b.long[..n], &b.small[64..76], &b.small[80..93], &mut b.out[..n]) }); true }));
            v.push(op(format!("{s} encrypt data"), ALL, move |n, b| { meter(&mut b.work, || { let o = drv::aead_new(k, &b.small[..l]); drv::aead_enc(&o, &b.small[..20], &b.small[64..76], &b.long[..n], &mut b.out[..20]) }); true }));
            v.push(op(format!("{s} decrypt message"), ALL, move |n, b| {
                let o = drv::aead_new(k, &b.small[..l]);
                let t = drv::aead_enc(&o, &b.long[..n], &b.small[64..76], &b.small[80..93], &mut b.out[..n]);
                meter(&mut b.work, || drv::aead_dec(&o, &b.out[..n], &b.small[64..76], &b.small[80..93], &t, &mut b.long[..n]))
            }));
            v.push(op(format!("{s} refuse message"), ALL, move |n, b| {
                let o = drv::aead_new(k, &b.small[..l]);
                !meter(&mut b.work, || drv::aead_dec(&o, &b.long[..n], &b.small[64..76], &b.small[80..93], &b.small[..16], &mut b.out[..n]))
            }));
            v.push(op(format!("{s} refuse data"), ALL, move |n, b| {
                let o = drv::aead_new(k, &b.small[..l]);
                !meter(&mut b.work, || drv::aead_dec(&o, &b.small[..33], &b.small[64..76], &b.long[..n], &b.small[..16], &mut b.out[..33]))
            }));
            v.push(op(format!("{s} refuse tag length"), ALL, move |n, b| {
                let o = drv::aead_new(k, &b.small[..l]);
                !meter(&mut b.work, || drv::aead_dec(&o, &b.small[..33], &b.small[64..76], &b.small[80..93], &b.long[..n], &mut b.out[..33]))
            }));
        }
        v.push(op("chacha20 stream in one piece".into(), ALL, |n, b| { meter(&mut b.work, || drv::stream(&b.small[..32], &b.small[64..76], &b.long[..n], &mut b.out[..n])); true }));
        v.push(op("chacha20 stream in small pieces, skips and reads".into(), ALL, |n, b| { meter(&mut b.work, || drv::stream_pieces(&b.small[..32], &b.small[64..76], &b.long[..n], &mut b.out[..n])); true }));
        v.push(op("ed25519 sign".into(), ALL, |n, b| { meter(&mut b.work, || drv::ed_sign(&b.long[..n], &b.small[..32])); true }));
        v.push(op("ed25519 verify, right signature".into(), ALL, |n, b| {
            let (pk, s) = (drv::ed_pk(&b.small[..32]), drv::ed_sign(&b.long[..n], &b.small[..32]));
            meter(&mut b.work, || drv::ed_verify(&b.long[..n], &s, &pk))
        }));
        v.push(op("ed25519 verify, wrong signature".into(), ALL, |n, b| {
            let (pk, mut s) = (drv::ed_pk(&b.small[..32]), drv::ed_sign(&b.long[..n], &b.small[..32]));
            s[9] ^= 4;
            !meter(&mut b.work, || drv::ed_verify(&b.long[..n], &s, &pk))
        }));
        v.push(op("ed25519 verify, signature length".into(), ALL, |n, b| { let pk = drv::ed_pk(&b.small[..32]); !meter(&mut b.work, || drv::ed_verify(&b.small[..9], &b.long[..n], &pk)) }));
        v.push(op("verify_16".into(), ALL, |n, b| { let x: [u8; 16] = b.small[..16].try_into().unwrap(); !meter(&mut b.work, || drv::verify16(&x, &b.long[..n])) }));
        v
    })
}
fn work(o: &Op, n: usize) -> Result<u64, String> {
    let mut b = B { long: mix(500, n.max(256)), out: vec![0; n.max(256)], small: mix(501, 160), work: 0 };
    match call(|| (o.run)(n, &mut b)) {
        Err(e) => { rt::end(); Err(format!("panicked: {e}")) }
        Ok(false) => Err("wrong verdict".into()),
        Ok(true) => Ok(b.work),
    }
}
const UNIT: usize = 1024;
/// The most work for up to 150 bytes, and the work for UNIT bytes.
fn scale(i: usize) -> &'static [u64; 2] {
    static S: OnceLock<Vec<OnceLock<[u64; 2]>>> = OnceLock::new();
    let w = |n| work(&table()[i], n).unwrap_or(0);
    S.get_or_init(|| table().iter().map(|_| OnceLock::new()).collect())[i].get_or_init(|| [(0..=150).map(w).max().unwrap(), w(UNIT)])
}
fn check(c: &mut Ctx, i: usize, n: usize) {
    let o = &table()[i];
    if n > o.most { return }
    match work(o, n) {
        Err(e) => c.fail(|| format!("{e}\n  {} of {n} bytes", o.name)),
        Ok(w) => {
            // Never more than half as much again per byte as UNIT bytes take, plus what a few bytes take (a last partial
            // block, a path for a particular length). Work that grows with the square would be n / UNIT times as much.
            let [few, unit] = *scale(i);
            let bound = 2 * few + 500 + (unit.max(few) as u128 * 3 * n as u128 / (2 * UNIT as u128)) as u64;
            if w > bound { c.fail(|| format!("{w} steps of work, more than {bound}\n  {} of {n} bytes (up to 150 bytes take up to {few} steps, {UNIT} bytes {unit})", o.name)) }
            c.trace(1, h(&[o.name.as_bytes(), &(n as u64).to_le_bytes()]), w);
            c.count("steps", w);
            c.note(|| format!("{} of {n} bytes: {w} steps, bound {bound}", o.name));
        }
    }
}
/// Calls whose arguments have fixed lengths, with contents from an alphabet.
fn contents(kind: u64, i: u64, c: &mut Ctx) {
    let mut w = 0;
    let (x, y) = (alphabet(i / COUNT % COUNT), alphabet(i % COUNT));
    let mut base = 0;
    let small = mix(502, 64);
    let r = call(|| match kind {
        0 => { meter(&mut base, || drv::x_dh(&small[..32], &small[32..])); meter(&mut w, || drv::x_dh(&x, &y)); }
        1 => {
            let pk = drv::ed_pk(&small[..32]);
            let s = drv::ed_sign(b"m", &small[..32]);
            meter(&mut base, || drv::ed_verify(b"m", &s, &pk));
            let sig = [x, y].concat();
            meter(&mut w, || drv::ed_verify(b"m", &sig, &pk));
            // as the key, with R and S of a real signature
            meter(&mut w, || drv::ed_verify(b"m", &[s[..32].to_vec(), y.to_vec()].concat(), &x));
        }
        2 => { meter(&mut base, || drv::ed_sign(&small[..32], &small[32..])); meter(&mut w, || drv::ed_sign(&x, &y)); }
        _ => {
            let enc = |w: &mut u64, k: &[u8], m: &[u8]| for a in 0..5u8 { let mut out = [0; 32]; meter(w, || { let o = drv::aead_new(a, &k[..KEY[a as usize]]); drv::aead_enc(&o, m, &m[..12], &k[..20], &mut out); }) };
            enc(&mut base, &small[..32], &small[32..]);
            enc(&mut w, &x, &y);
        }
    });
    let d = || format!("{} with {} and {}", ["x25519", "ed25519 verify", "ed25519 sign", "AEAD"][kind as usize], hex(&x), hex(&y));
    if let Err(e) = r { rt::end(); c.fail(|| format!("panicked: {e}\n  {}", d())); return }
    if w > 4 * base { c.fail(|| format!("{w} steps of work; ordinary arguments take {base}\n  {}", d())) }
    c.cover("amounts of work", w);
    c.trace(1, h(&[&[kind as u8], &x, &y]), w);
}
const COUNT: u64 = 44;
fn alphabet(i: u64) -> [u8; 32] {
    const P: [u8; 32] = { let mut p = [0xff; 32]; p[0] = 0xed; p[31] = 0x7f; p };
    const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
    let one = |b: u8| { let mut v = [0; 32]; v[0] = b; v };
    let off = |mut v: [u8; 32], d: i16| { v[0] = (v[0] as i16 + d) as u8; v };
    match i {
        0..=4 => one([0, 1, 2, 5, 9][i as usize]),
        5 => [0xff; 32],
        6..=9 => off(P, i as i16 - 8),
        10..=13 => off(L, i as i16 - 12),
        14..=17 => { let mut v = off(P, i as i16 - 16); v[31] |= 0x80; v }
        18..=23 => [[0x55, 0xaa, 0x11, 0x88, 0x0f, 0x7f][i as usize - 18]; 32],
        24..=27 => { let mut v = one(i as u8 & 1); v[31] = [0x80, 0x40, 0x10, 0x0f][i as usize - 24]; v }
        28..=31 => { let mut v = [0x10; 32]; v[31] = [0, 8, 0x0f, 0x1f][i as usize - 28]; v }
        _ => mixa(600 + i),
    }
}
pub fn families(t: bool) -> Vec<Family> {
    let ops = table().len() as u64;
    let (short, top) = if t { (2048u64, 20u64) } else { (700, 17) };
    let mut v = vec![
        fam("short", format!("{ops} operations x every length 0..={short} of the argument that varies"), ops * (short + 1), move |i, c| check(c, (i % ops) as usize, (i / ops) as usize)),
        fam("long", format!("{ops} operations x lengths 2^k + {{-1, 0, 1, 13}}, k = 10..={top} (slow ones two powers less)"), ops * 4 * (top - 9), move |i, c| {
            let o = (i % ops) as usize;
            let n = (1i64 << (10 + i / ops / 4)) + [-1, 0, 1, 13][(i / ops % 4) as usize];
            if table()[o].name.starts_with("aes") && i / ops / 4 + 12 > top { return }
            check(c, o, n as usize)
        }).limit(600),
    ];
    for (k, name) in ["x25519", "ed25519-verify", "ed25519-sign", "aead"].iter().enumerate() {
        v.push(fam(&format!("contents-{name}"), format!("every pair of {COUNT} extreme or ordinary 32-byte strings as the two arguments: not more than four times the work for ordinary ones"), COUNT * COUNT, move |i, c| contents(k as u64, i, c)).grain(8));
    }
    v
}
/// The meter counts, and counts in proportion.
pub fn selftest() -> Result<(), String> {
    let mut w = [0u64; 3];
    for (k, w) in w.iter_mut().enumerate() { let m = vec![1; 4096 << k]; let mut o = [0; 64]; meter(w, || drv::digest(1, &m, &mut o)) }
    if w[0] < 64 * 64 || w[1] < w[0] * 19 / 10 || w[1] > w[0] * 21 / 10 || w[2] > w[0] * 42 / 10 { return Err(format!("work meter: {w:?} for 4, 8 and 16 KiB")) }
    let (mut a, mut b) = (0, 0);
    meter(&mut a, || drv::leak_branch(0x00));
    meter(&mut b, || drv::leak_branch(0xff));
    if b < 20 * a { return Err(format!("work meter: {a} and {b} steps for the planted loop")) }
    Ok(())
}
