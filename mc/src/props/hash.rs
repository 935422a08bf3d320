//! C01-C05: SHA-2, HMAC, HKDF.
use crate::engine::*;
use crate::imp::{self, AnyHash};
use crate::refs::sha2::*;
use std::sync::{Arc, OnceLock};

fn al(i: u64) -> Alg { ALGS[i as usize % 4] }

/// Digests of all prefixes of one fixed message, per algorithm.
const BASE_LEN: usize = 1600;
pub fn base_msg() -> &'static [u8] { static M: OnceLock<Vec<u8>> = OnceLock::new(); M.get_or_init(|| mix(77, BASE_LEN)) }
pub fn base_digest(a: Alg, n: usize) -> &'static [u8] {
    static T: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
    &T.get_or_init(|| ALGS.iter().map(|&a| prefix_digests(a, base_msg())).collect())[ALGS.iter().position(|&x| x == a).unwrap()][n]
}

fn check_digest(c: &mut Ctx, a: Alg, m: &[u8]) {
    let want = hash(a, m);
    let d = || format!("{} message {}", a.name(), show(m));
    let st = h(&[a.name().as_bytes(), m]);
    if let Some(g) = c.must("digest", d, || imp::digest(a, &[m])) { c.eq("digest", &g, &want, d); c.trace(2, st, h(&[&g])); }
    if let Some(g) = c.must("wrapper", d, || imp::digest_wrapper(a, m)) { c.eq("wrapper digest", &g, &want, d); c.trace(1, st, h(&[&g])); }
    c.note(|| format!("{} of {} -> {}", a.name(), show(m), hex(&want)));
}

pub fn c01(t: bool) -> Vec<Family> {
    let n = if t { 4200u64 } else { 1300 };
    let mut v = vec![
        fam("lengths", format!("4 hashes x 6 byte patterns x every length 0..={n}"), 24 * (n + 1), move |i, c| {
            check_digest(c, al(i), &pat(i / 4 % 6, (i / 24) as usize));
        }).grain(64),
        fam("one-two-bytes", "4 hashes x every message of 1 and 2 bytes", 4 * (256 + 65536), |i, c| {
            let (a, x) = (al(i), i / 4);
            if x < 256 { check_digest(c, a, &[x as u8]) } else { check_digest(c, a, &((x - 256) as u16).to_be_bytes()) }
        }).grain(256),
        fam("single-bits", "4 hashes x every 1-bit message (and complement) of exactly 1, 2 blocks, and of 1 block less the padding", 4 * 6 * 2048, |i, c| {
            let a = al(i);
            let k = i / 4 % 6;
            let len = match k % 3 { 0 => a.block(), 1 => 2 * a.block(), _ => a.block() - a.block() / 8 - 1 };
            let bit = (i / 24) as usize;
            if bit >= 8 * len { return }
            let mut m = vec![if k < 3 { 0 } else { 0xff }; len];
            m[bit / 8] ^= 1 << (bit % 8);
            check_digest(c, a, &m);
        }).grain(256),
        fam("powers-of-two", format!("4 hashes x lengths 2^k + d, k <= {}, |d| <= 9, and multiples of the block around them", if t { 26 } else { 20 }), 4 * 19 * (if t { 27 } else { 21 }), move |i, c| {
            let (a, d, k) = (al(i), (i / 4 % 19) as i64 - 9, i / 76);
            let l = (1i64 << k) + d;
            if l >= 0 { check_digest(c, a, &mix(k, l as usize)) }
        }).limit(600),
    ];
    v.push(fam("steered-schedule", "4 hashes x every position of the message schedule: block chosen so that the 16 words there are one repeated byte, or one word with a single bit (or all bits but one), or all ones and all zero in every pattern of two halves", 4 * 65 * 512, |i, c| {
        let a = al(i);
        let s = Steer::new(a);
        let (t, x) = ((i / 4 % 65) as usize, i / 260);
        if t > s.rounds() - 16 { return }
        let all = if s.bits() == 32 { 0xffff_ffffu64 } else { u64::MAX };
        let mut w = [0u64; 16];
        match x {
            0..=255 => w = [(x * 0x0101_0101_0101_0101) & all; 16],
            256..=383 => w[(x % 16) as usize] = 1u64 << ((x - 256) * 5 % s.bits() as u64),
            384..=479 => { w = [all; 16]; w[(x % 16) as usize] ^= 1 << ((x - 384) * 5 % s.bits() as u64) }
            _ => for j in 0..16 { if (x - 480) >> (j / 4) & 1 == 1 { w[j as usize] = all } },
        }
        let m = s.schedule(&w, t);
        check_digest(c, a, &m);
        if x % 8 == 0 { check_digest(c, a, &[pat(2, a.block()), m].concat()) }
    }).grain(64));
    v.push(fam("steered-variables", "4 hashes x after round 8..=16: block chosen so that the working variables are one repeated byte, or one of them with a single bit (or all bits but one) among zeros (ones), or zero and all ones in all 256 patterns", 4 * 9 * 768, |i, c| {
        let a = al(i);
        let s = Steer::new(a);
        let (t, x) = ((i / 4 % 9) as usize + 8, i / 36);
        let all = if s.bits() == 32 { 0xffff_ffffu64 } else { u64::MAX };
        let mut w = [0u64; 8];
        match x {
            0..=255 => w = [(x * 0x0101_0101_0101_0101) & all; 8],
            256..=511 => { if x >= 384 { w = [all; 8] } w[(x % 8) as usize] ^= 1 << ((x / 8) * 3 % s.bits() as u64) }
            _ => for j in 0..8 { if (x - 512) >> j & 1 == 1 { w[j as usize] = all } },
        }
        check_digest(c, a, &s.variables(&w, t, if x % 2 == 0 { 0 } else { 0x9e37_79b9_7f4a_7c15 }));
    }).grain(64));
    // Bit lengths above 2^32: one update of 2^29 + 2^k + r zero bytes.
    v.push(fam("beyond-2^32-bits", "4 hashes, one update of 2^29 + r zero bytes, r in {0, 1, 63, 200}, and 1 byte then 2^29 - 1", if t { 20 } else { 8 }, move |i, c| {
        let a = al(i);
        let k = i / 4;
        let r = [1usize, 0, 63, 200][(k % 4) as usize];
        let total = (1usize << 29) + if k == 4 || (!t && k == 1) { 0 } else { r };
        let z = vec![0u8; total];
        let g = if k == 4 || (!t && k == 1) { imp::digest(a, &[&z[..1], &z[1..]]) } else { imp::digest(a, &[&z]) };
        let want = if t || !known_zero(a, total).is_some() { zero_digest(a, total as u128) } else { unhex(known_zero(a, total).unwrap()) };
        c.eq("digest of zeros", &g, &want, || format!("{} of {total} zero bytes", a.name()));
        c.trace(2, h(&[a.name().as_bytes(), &(total as u64 + (k << 50)).to_le_bytes()]), h(&[&g]));
        c.note(|| format!("{} of {total} zero bytes -> {}", a.name(), hex(&g)));
    }).limit(600));
    // Byte lengths above 2^32 (plain build only: 4 GiB through the compression function).
    if t || super::full() {
        v.push(fam("beyond-2^32-bytes", "4 hashes, 2^32 + 70 zero bytes fed as 1024 updates of 4 MiB and one of 70", 4, move |i, c| {
            let a = al(i);
            let z = vec![0u8; 1 << 22];
            let total = (1u64 << 32) + 70;
            let mut x = AnyHash::new(a);
            for _ in 0..1024 { x.update(&z) }
            x.update(&z[..70]);
            let g = x.finish();
            let want = if t { zero_digest(a, total as u128) } else { unhex(known_zero(a, total as usize).unwrap()) };
            c.eq("digest of zeros", &g, &want, || format!("{} of {total} zero bytes", a.name()));
            c.trace(1026, h(&[a.name().as_bytes(), &total.to_le_bytes()]), h(&[&g]));
        }).limit(800));
    }
    v
}
fn zero_digest(a: Alg, n: u128) -> Vec<u8> {
    let z = vec![0u8; 1 << 20];
    let mut ch = Chain::new(a);
    let bs = a.block() as u128;
    let mut left = n / bs * bs;
    while left > 0 { let k = left.min(1 << 20) as usize; ch.blocks(&z[..k]); left -= k as u128 }
    ch.finish(&z[..(n % bs) as usize])
}
/// Digests of long zero strings; produced by the reference (recomputed in the thorough tier) and checked once with coreutils sha*sum.
fn known_zero(a: Alg, n: usize) -> Option<&'static str> {
    include!("zero_digests.rs").iter().find(|x| x.0 == a.name() && x.1 == n as u64).map(|x| x.2)
}
pub fn aux_zero() {
    for a in ALGS { for n in [1u64 << 29, (1 << 29) + 1, (1 << 32) + 70] { println!("(\"{}\", {n}, \"{}\"),", a.name(), hex(&zero_digest(a, n as u128))) } }
}

fn check_parts(c: &mut Ctx, a: Alg, parts: &[usize]) {
    let m = base_msg();
    let total: usize = parts.iter().sum();
    let r = call(|| {
        let mut x = AnyHash::new(a);
        let mut o = 0;
        for &p in parts { x.update(&m[o..o + p]); o += p }
        let mut out = [0xa5u8; 64];
        let n = x.size();
        x.finish_into(&mut out[..n]);
        out
    });
    let d = || format!("{} updates of {parts:?} bytes", a.name());
    let st = parts.iter().fold(H64::new().b(a.name().as_bytes()), |s, &p| s.u(p as u64)).get();
    match r {
        Ok(g) => { let w = base_digest(a, total); c.eq("digest after split updates", &g[..w.len()], w, d); c.trace(parts.len() as u64 + 2, st, h(&[&g])); }
        Err(e) => c.fail(|| format!("panicked: {e}\n  {}", d())),
    }
    c.note(|| format!("{} -> {}", d(), hex(base_digest(a, total))));
}
pub fn c02(t: bool) -> Vec<Family> {
    let mut v = vec![];
    for a in ALGS {
        let b = a.block();
        let n = b as u64 + 3;
        v.push(fam(&format!("triples-{}", a.name()), format!("every (a, b, c) with each update 0..={} bytes", n - 1), n * n, move |i, c| {
            for x in 0..n { check_parts(c, a, &[(i / n) as usize, (i % n) as usize, x as usize]) }
        }).grain(16));
        let n2 = (4 * b + 4) as u64;
        v.push(fam(&format!("pairs-{}", a.name()), format!("every (a, b) with each update 0..={}", n2 - 1), n2, move |i, c| {
            for x in 0..n2 { check_parts(c, a, &[i as usize, x as usize]) }
        }));
        let sizes = Arc::new(vec![0, 1, b / 2, b - b / 8, b - 1, b, b + 1, 2 * b, b / 2 + 1, 2 * b + 1]);
        let depth = if t { 6u32 } else { 5 };
        let k = sizes.len() as u64;
        v.push(fam(&format!("sequences-{}", a.name()), format!("every sequence of {depth} updates over sizes {sizes:?}"), k.pow(depth - 1), move |i, c| {
            let mut p = vec![0; depth as usize];
            let mut x = i;
            for q in p.iter_mut().skip(1) { *q = sizes[(x % k) as usize]; x /= k }
            for &s in sizes.iter() { p[0] = s; check_parts(c, a, &p) }
        }).grain(64));
        let top = if t { 17u64 } else { 14 };
        v.push(fam(&format!("compositions-{}", a.name()), format!("every way to cut the last {top} bytes of a message into consecutive updates, ending {{-3..=14}} bytes around the block and padding boundaries"), 40 << (top - 1), move |i, c| {
            let off = i >> (top - 1);
            let end = [b, 2 * b, b - b / 8, 2 * b - b / 8][(off % 4) as usize] as i64 + (off / 4) as i64 * 2 - 3;
            let mut p = vec![(end - top as i64).max(0) as usize];
            let mut run = 1;
            for k in 0..top - 1 { if i >> k & 1 == 1 { p.push(run); run = 1 } else { run += 1 } }
            p.push(run);
            check_parts(c, a, &p);
        }).grain(512));
        v.push(fam(&format!("uniform-{}", a.name()), "messages of 1..=1600 bytes (step 1 below 3 blocks, then 37) in equal updates of every size 1..=300", 300, move |i, c| {
            let s = i as usize + 1;
            let mut n = 1;
            while n <= BASE_LEN {
                let mut p = vec![s; n / s];
                if n % s > 0 { p.push(n % s) }
                if s > 4 || n < 3 * b { check_parts(c, a, &p) }
                n += if n < 3 * b { 1 } else { 37 };
            }
        }));
        v.push(fam(&format!("empty-updates-{}", a.name()), "0..3 empty updates before, between and after two updates of every size 0..=2 blocks+1", (2 * b as u64 + 2) * 3, move |i, c| {
            let e = (i % 3) as usize + 1;
            for y in [0, 1, b - 1, b, b + 1] {
                let mut p = vec![0; e];
                p.push((i / 3) as usize);
                p.extend(vec![0; e]);
                p.push(y);
                p.extend(vec![0; e]);
                check_parts(c, a, &p);
            }
        }));
    }
    // Large updates joined to partial blocks.
    let big = if t { 300u64 } else { 80 };
    v.push(fam("large", format!("4 hashes x first update 0..={big} (every residue) then one of 2^k + {{-1, 0, 1}} bytes, k = 12, 16, 17, 20"), 4 * (big + 1) * 12, move |i, c| {
        let (a, f, k, d) = (al(i), i / 4 % (big + 1), i / 4 / (big + 1) / 3, i / 4 / (big + 1) % 3);
        let l = (1usize << [12, 16, 17, 20][k as usize]) + d as usize - 1;
        if k == 3 && f % 8 != 1 { return }
        static M: OnceLock<Vec<u8>> = OnceLock::new();
        let m = M.get_or_init(|| mix(5, (1 << 20) + 400));
        let (x, y) = (&m[..f as usize], &m[f as usize..f as usize + l]);
        let g = imp::digest(a, &[x, y]);
        let w = hash(a, &m[..f as usize + l]);
        c.eq("digest after split updates", &g, &w, || format!("{} updates of [{f}, {l}] bytes", a.name()));
        c.trace(4, h(&[a.name().as_bytes(), &(f << 32 | l as u64).to_le_bytes()]), h(&[&g]));
    }));
    // Long histories: many small (or empty) updates.
    let kmax = if t { 22u64 } else { 17 };
    v.push(fam("many-updates", format!("4 hashes x 2^k + {{-1, 0, 1}} updates, k = 8..={kmax}, of 1 byte each; of no bytes after one byte; of 1 and 0 bytes in turn; of one block; of one block and one byte (at most 4 MiB in all)"), 4 * 5 * 3 * (kmax - 7), move |i, c| {
        let (a, mode, d, k) = (al(i), i / 4 % 5, i / 20 % 3, i / 60 + 8);
        let n = (1usize << k) + d as usize - 1;
        let b = a.block();
        let size = |j: usize| match mode { 0 => 1, 1 => (j == 0) as usize, 2 => j & 1, 3 => b, _ => b + 1 };
        let total: usize = (0..n).map(size).sum();
        if total > (4 << 20) + 4096 { return }
        static M: OnceLock<Vec<u8>> = OnceLock::new();
        let m = M.get_or_init(|| mix(6, (4 << 20) + 8192));
        let mut at = 0;
        let parts: Vec<&[u8]> = (0..n).map(|j| { let s = size(j); at += s; &m[at - s..at] }).collect();
        let what = ["1 byte", "0 bytes after the first of 1", "0 and 1 bytes in turn", "one block", "one block and one byte"][mode as usize];
        let d = || format!("{} {n} updates of {what}", a.name());
        let Some(g) = c.must("digest", d, || imp::digest(a, &parts)) else { return };
        c.eq("digest after split updates", &g, &hash(a, &m[..total]), d);
        c.trace(n as u64 + 2, h(&[a.name().as_bytes(), &[mode as u8], &(n as u64).to_le_bytes()]), h(&[&g]));
        let key = pat(26, 33);
        let Some(g) = c.must("hmac", d, || imp::hmac(a, &key, &parts)) else { return };
        c.eq("hmac after split updates", &g, &hmac(a, &key, &m[..total]), || format!("hmac-{}", d()));
        c.trace(n as u64 + 2, h(&[a.name().as_bytes(), b"m", &[mode as u8], &(n as u64).to_le_bytes()]), h(&[&g]));
    }));
    v
}

// ---------------------------------------------------------------- HMAC
fn check_hmac(c: &mut Ctx, a: Alg, key: &[u8], parts: &[&[u8]], wrapper: bool) {
    let m = parts.concat();
    let want = hmac(a, key, &m);
    let d = || format!("hmac-{} key {} message {} in parts {:?}", a.name(), show(key), show(&m), parts.iter().map(|p| p.len()).collect::<Vec<_>>());
    let st = parts.iter().fold(H64::new().b(a.name().as_bytes()).b(key).b(&m), |s, p| s.u(p.len() as u64)).get();
    if let Some(g) = c.must("hmac", d, || imp::hmac(a, key, parts)) { c.eq("hmac tag", &g, &want, d); c.trace(2 + parts.len() as u64, st, h(&[&g])); }
    if wrapper { if let Some(g) = c.must("hmac wrapper", d, || imp::hmac_wrapper(a, key, &m)) { c.eq("hmac wrapper tag", &g, &want, d); c.trace(1, st, h(&[&g])); } }
    c.note(|| format!("{} -> {}", d(), hex(&want)));
}
pub fn c03(t: bool) -> Vec<Family> {
    let kmax = if t { 1100u64 } else { 400 };
    vec![
        fam("key-lengths", format!("4 hashes x every key length 0..={kmax} x 5 key patterns x message lengths 0, 1, padding boundaries, block +-1, 3 blocks"), 20 * (kmax + 1), move |i, c| {
            let a = al(i);
            let b = a.block();
            let key = pat(i / 4 % 5, (i / 20) as usize);
            for l in [0, 1, 50, b - b / 8 - 1, b - b / 8, b - 1, b, b + 1, 3 * b] { check_hmac(c, a, &key, &[&pat(9, l)], true) }
        }).grain(16),
        fam("message-lengths", format!("4 hashes x every message length 0..={kmax} x 9 key lengths"), 36 * (kmax + 1), move |i, c| {
            let a = al(i);
            let b = a.block();
            let k = [0, 1, 20, a.size(), b - 1, b, b + 1, 2 * b, 131][(i / 4 % 9) as usize];
            check_hmac(c, a, &pat(7, k), &[&pat(8, (i / 36) as usize)], true)
        }).grain(64),
        fam("two-part-messages", "4 hashes x 4 key lengths x every pair of updates 0..=block+2 bytes", 16 * 131, |i, c| {
            let a = al(i);
            let b = a.block();
            let x = (i / 16) as usize;
            if x > b + 2 { return }
            let key = pat(6, [0, 20, b, b + 1][(i / 4 % 4) as usize]);
            let m = base_msg();
            for y in 0..=b + 2 { check_hmac(c, a, &key, &[&m[..x], &m[x..x + y]], false) }
        }),
        fam("update-sequences", format!("4 hashes x 2 keys x every sequence of {} updates over sizes 0, 1, B/2, B-1, B, B+1, 2B+3", if t { 6 } else { 4 }), 8 * 7u64.pow(if t { 6 } else { 4 }), move |i, c| {
            let a = al(i);
            let b = a.block();
            let key = pat(6, [20, b + 1][(i / 4 % 2) as usize]);
            let (mut x, m, mut o, mut p) = (i / 8, base_msg(), 0, vec![]);
            for _ in 0..if t { 6 } else { 4 } { let s = [0, 1, b / 2, b - 1, b, b + 1, 2 * b + 3][(x % 7) as usize]; p.push(&m[o % 40..o % 40 + s]); o += s; x /= 7 }
            check_hmac(c, a, &key, &p, false)
        }).grain(64),
        fam("single-bit-keys", "4 hashes x every 1-bit key (and complement) of B-1, B, B+1 and 2B bytes", 4 * 4 * 2 * 2048, |i, c| {
            let a = al(i);
            let b = a.block();
            let len = [b - 1, b, b + 1, 2 * b][(i / 4 % 4) as usize];
            let bit = (i / 32) as usize;
            if bit >= 8 * len { return }
            let mut k = vec![if i / 16 % 2 == 0 { 0 } else { 0xff }; len];
            k[bit / 8] ^= 1 << (bit % 8);
            check_hmac(c, a, &k, &[b"message"], true)
        }).grain(64),
        fam("key-bytes", "4 hashes x every value of every key byte position of a B-byte key", 4 * 128 * 256, |i, c| {
            let a = al(i);
            let p = (i / 1024) as usize;
            if p >= a.block() { return }
            let mut k = pat(2, a.block());
            k[p] = (i / 4 % 256) as u8;
            check_hmac(c, a, &k, &[b"m"], i % 16 == 0)
        }).grain(64),
        fam("trailing-zero-keys", "4 hashes x keys of every length 0..=B+8 followed by 1..=4 zero bytes", 4 * 140 * 4, |i, c| {
            let a = al(i);
            let l = (i / 16) as usize;
            if l > a.block() + 8 { return }
            let mut k = pat(2, l);
            k.extend(vec![0; 1 + (i / 4 % 4) as usize]);
            check_hmac(c, a, &k, &[b"zero padded"], true)
        }).grain(16),
        fam("long", "4 hashes x keys of 2^k + {-1,0,1} bytes and messages of 2^k + {-1,0,1} bytes, k = 10..=18", 4 * 27 * 2, |i, c| {
            let a = al(i);
            let l = (1usize << (10 + i / 8 / 3)) + (i / 8 % 3) as usize - 1;
            if i / 4 % 2 == 0 { check_hmac(c, a, &pat(11, l), &[b"long key"], true) } else { check_hmac(c, a, &pat(11, 32), &[&pat(12, l)], true) }
        }),
        fam("huge-keys", if t || super::full() { "4 hashes x keys of 2^29 + 1 and 2^32 + 70 zero bytes, and a message of 2^29 + 1 zero bytes" } else { "4 hashes x a key of 2^29 + 1 zero bytes, and a message of 2^29 + 1 zero bytes" }, if t || super::full() { 12 } else { 8 }, |i, c| {
            let a = al(i);
            let n = [(1usize << 29) + 1, (1 << 29) + 1, (1 << 32) + 70][(i / 4) as usize];
            let Some(z) = crate::mem::Long::new(n, &[]) else { c.count("address space refused", 1); return };
            let (g, want, d) = if i / 4 == 1 {
                let key = pat(11, 20);
                let xor = |v: u8| { let mut k = key.clone(); k.resize(a.block(), 0); k.iter().map(|b| b ^ v).collect::<Vec<u8>>() };
                let mut ch = Chain::new(a);
                ch.blocks(&xor(0x36));
                let body = n / a.block() * a.block();
                for x in z.get()[..body].chunks(1 << 20) { ch.blocks(x) }
                let inner = ch.finish(&z.get()[body..]);
                (call(|| imp::hmac(a, &key, &[z.get()])), hash(a, &[xor(0x5c), inner].concat()), format!("{} key {} message of {n} zero bytes", a.name(), hex(&key)))
            } else {
                (call(|| imp::hmac_wrapper(a, z.get(), b"message")), hmac(a, &unhex(known_zero(a, n).unwrap()), b"message"), format!("{} key of {n} zero bytes", a.name()))
            };
            match g { Ok(g) => { c.eq("hmac tag", &g, &want, || d.clone()); c.trace(1, h(&[d.as_bytes()]), h(&[&g])) } Err(m) => c.fail(|| format!("panicked: {m}\n  {d}")) }
        }).limit(800),
    ]
}

/// The verifier must say exactly what the reference says.
fn check_verify(c: &mut Ctx, a: Alg, key: &[u8], m: &[u8], want_tag: &[u8], tag: &[u8]) {
    let want = want_tag == tag;
    match call(|| imp::hmac_verify(a, key, m, tag)) {
        Ok(g) => { if g != want { c.fail(|| format!("hmac verify returned {g}, expected {want}\n  {} key {} message {}\n  right tag {}\n  offered   {}", a.name(), show(key), show(m), hex(want_tag), show(tag))) }
            c.count(if g { "accepted" } else { "rejected" }, 1);
            c.trace(1, h(&[a.name().as_bytes(), key, m, tag]), g as u64); }
        Err(e) => c.fail(|| format!("hmac verify panicked: {e}\n  {} key {} message {} offered {}", a.name(), show(key), show(m), show(tag))),
    }
    c.note(|| format!("{} verify key {} message {} tag {} -> {want}", a.name(), show(key), show(m), show(tag)));
}
fn km(a: Alg, v: u64) -> (Vec<u8>, Vec<u8>) {
    let b = a.block();
    match v { 0 => (pat(20, 32), pat(21, 40)), 1 => (vec![], vec![]), 2 => (pat(22, b), pat(23, b)), _ => (pat(24, b + 1), pat(25, 3 * b + 1)) }
}
pub fn c04(t: bool) -> Vec<Family> {
    let kms = if t { 4u64 } else { 2 };
    vec![
        fam("accept", "4 hashes x every key length 0..=300 x message lengths 0..=300 step 7: the right tag", 4 * 301 * 43, |i, c| {
            let a = al(i);
            let (k, m) = (pat(2, (i / 4 % 301) as usize), pat(9, 7 * (i / 4 / 301) as usize));
            let w = hmac(a, &k, &m);
            check_verify(c, a, &k, &m, &w, &w.clone())
        }).grain(64),
        fam("one-bit", "4 hashes x 4 key/message pairs x every 1-bit change of the tag", 16 * 512, |i, c| {
            let a = al(i);
            let (k, m) = km(a, i / 4 % 4);
            let w = hmac(a, &k, &m);
            let bit = (i / 16) as usize;
            if bit >= 8 * w.len() { return }
            let mut g = w.clone();
            g[bit / 8] ^= 1 << (bit % 8);
            check_verify(c, a, &k, &m, &w, &g)
        }).grain(32),
        fam("two-bits", format!("4 hashes x {kms} key/message pairs x every 2-bit change of the tag"), 4 * kms * 512, move |i, c| {
            let a = al(i);
            let (k, m) = km(a, i / 4 % kms);
            let w = hmac(a, &k, &m);
            let x = (i / 4 / kms) as usize;
            if x >= 8 * w.len() { return }
            for y in x + 1..8 * w.len() {
                let mut g = w.clone();
                g[x / 8] ^= 1 << (x % 8);
                g[y / 8] ^= 1 << (y % 8);
                check_verify(c, a, &k, &m, &w, &g)
            }
        }),
        fam("one-byte", "4 hashes x 4 key/message pairs x every other value of every tag byte", 16 * 64, |i, c| {
            let a = al(i);
            let (k, m) = km(a, i / 4 % 4);
            let w = hmac(a, &k, &m);
            let p = (i / 16) as usize;
            if p >= w.len() { return }
            for d in 1..=255u8 { let mut g = w.clone(); g[p] ^= d; check_verify(c, a, &k, &m, &w, &g) }
        }),
        fam("two-bytes", "4 hashes x every pair of tag bytes x cancelling changes (same xor, +d/-d, swap) for 10 deltas; same change in all bytes, in every second byte, in each half and word", 4 * 66, |i, c| {
            let a = al(i);
            let (k, m) = km(a, 0);
            let w = hmac(a, &k, &m);
            let x = (i / 4) as usize;
            if x < w.len() {
                for y in 0..w.len() { if x == y { continue }
                    for d in [1u8, 2, 4, 8, 16, 32, 64, 128, 255, 0x55] {
                        let mut g = w.clone(); g[x] ^= d; g[y] ^= d; check_verify(c, a, &k, &m, &w, &g);
                        let mut g = w.clone(); g[x] = g[x].wrapping_add(d); g[y] = g[y].wrapping_sub(d); check_verify(c, a, &k, &m, &w, &g);
                    }
                    let mut g = w.clone(); g.swap(x, y); check_verify(c, a, &k, &m, &w, &g);
                }
            } else if x == 64 {
                for d in 1..=255u8 { for step in [1, 2, 4, 8, 16, 32] { for off in 0..step.min(w.len()) {
                    let mut g = w.clone();
                    for q in (off..g.len()).step_by(step) { g[q] ^= d }
                    check_verify(c, a, &k, &m, &w, &g);
                    let mut g = w.clone();
                    let l = g.len();
                    for b in &mut g[off.min(l)..(off + step).min(l)] { *b ^= d }
                    check_verify(c, a, &k, &m, &w, &g);
                } } }
            } else {
                for r in 1..w.len() { let mut g = w.clone(); g.rotate_left(r); check_verify(c, a, &k, &m, &w, &g) }
                let mut g = w.clone(); g.reverse(); check_verify(c, a, &k, &m, &w, &g);
            }
        }),
        fam("lengths", "4 hashes x 4 key/message pairs x every prefix and suffix of the tag, every extension by 1 byte value at either end, by 1..=300 bytes (0, 0xff, the tag repeated), constant tags of every length 0..=300", 16 * 4, |i, c| {
            let a = al(i);
            let (k, m) = km(a, i / 4 % 4);
            let w = hmac(a, &k, &m);
            match i / 16 {
                0 => for n in 0..w.len() { check_verify(c, a, &k, &m, &w, &w[..n]); check_verify(c, a, &k, &m, &w, &w[n..]) },
                1 => for v in 0..=255u8 { let mut g = w.clone(); g.push(v); check_verify(c, a, &k, &m, &w, &g); let mut g = vec![v]; g.extend(&w); check_verify(c, a, &k, &m, &w, &g) },
                2 => for n in 1..=300 { for f in 0..3 { let mut g = w.clone(); for j in 0..n { g.push(match f { 0 => 0, 1 => 0xff, _ => w[j % w.len()] }) } check_verify(c, a, &k, &m, &w, &g) } },
                _ => for n in 0..=300 { for f in [0u8, 0xff, w[0]] { check_verify(c, a, &k, &m, &w, &vec![f; n]) } },
            }
        }),
        fam("huge-tags", "4 hashes x 2 key/message pairs x offered tags of the right tag (or nothing) followed by 2^24, 2^32, 2^33 zero bytes", 4 * 2 * 6, |i, c| {
            let a = al(i);
            let (k, m) = km(a, i / 4 % 2);
            let w = hmac(a, &k, &m);
            let x = (i / 8) as usize;
            let n = [1usize << 24, 1 << 32, 1 << 33][x % 3] + if x < 3 { w.len() } else { 0 };
            let Some(t) = crate::mem::Long::new(n, &w) else { c.count("address space refused", 1); return };
            let d = || format!("{} key {} message {}, tag of {n} bytes beginning with the right one", a.name(), show(&k), show(&m));
            let Some(g) = c.must("hmac verify", d, || imp::hmac_verify(a, &k, &m, t.get())) else { return };
            if g { c.fail(|| format!("hmac verify accepted\n  {}", d())) }
            c.trace(1, h(&[a.name().as_bytes(), &i.to_le_bytes()]), g as u64);
        }),
        fam("message-and-key-bits", "4 hashes x 4 key/message pairs x every 1-bit change of message or key with the tag of the original, plus every truncation, and bytes moved between key and message", 16, |i, c| {
            let a = al(i);
            let (k, m) = km(a, i / 4 % 4);
            let w = hmac(a, &k, &m);
            let mut go = |k: &[u8], m: &[u8]| { let want = hmac(a, k, m); check_verify(c, a, k, m, &want, &w) };
            for bit in 0..8 * m.len() { let mut x = m.clone(); x[bit / 8] ^= 1 << (bit % 8); go(&k, &x) }
            for bit in 0..8 * k.len() { let mut x = k.clone(); x[bit / 8] ^= 1 << (bit % 8); go(&x, &m) }
            for n in 0..m.len() { go(&k, &m[..n]) }
            for n in 0..k.len() { go(&k[..n], &m); let mut x = k[n..].to_vec(); x.extend(&m); go(&k[..n], &x) }
            for n in 1..5 { let mut x = k.clone(); x.extend(vec![0; n]); go(&x, &m); let mut x = m.clone(); x.extend(vec![0; n]); go(&k, &x) }
        }),
        fam("other-hash-tags", "every pair of hashes: tag of one (whole, truncated, zero-extended) offered to the other", 16, |i, c| {
            let (a, o) = (al(i), al(i / 4));
            let (k, m) = km(a, 0);
            let w = hmac(a, &k, &m);
            let g = hmac(o, &k, &m);
            check_verify(c, a, &k, &m, &w, &g);
            for n in 0..=80 { let mut x = g.clone(); x.resize(n, 0); check_verify(c, a, &k, &m, &w, &x) }
            check_verify(c, a, &k, &m, &w, &hash(a, &m));
        }),
        fam("long", format!("4 hashes x key or message of 2^k + {{-1, 0, 1}} bytes, k = 9..={}: the right tag, every 1-bit change of its first, middle and last byte, one byte less and more", if t { 24 } else { 18 }), 4 * 2 * 3 * (if t { 16 } else { 10 }), |i, c| {
            let a = al(i);
            let l = (1usize << (9 + i / 24)) + (i / 8 % 3) as usize - 1;
            let (k, m) = if i / 4 % 2 == 0 { (pat(26, l), pat(27, 40)) } else { (pat(26, 40), pat(27, l)) };
            let w = hmac(a, &k, &m);
            check_verify(c, a, &k, &m, &w, &w.clone());
            for at in [0, w.len() / 2, w.len() - 1] { for b in 0..8 { let mut g = w.clone(); g[at] ^= 1 << b; check_verify(c, a, &k, &m, &w, &g) } }
            check_verify(c, a, &k, &m, &w, &w[..w.len() - 1]);
            check_verify(c, a, &k, &m, &w, &[&w[..], &[0]].concat());
        }),
    ]
}

// ---------------------------------------------------------------- HKDF
fn check_expand(c: &mut Ctx, a: Alg, prk: &[u8], info: &[u8], want: &[u8], fill: u8) {
    let mut g = vec![fill; want.len()];
    let d = || format!("hkdf-{} expand prk {} info {} L={}", a.name(), show(prk), show(info), want.len());
    if c.must("expand", d, || imp::hkdf_expand(a, prk, info, &mut g)).is_some() {
        c.eq("okm", &g, want, d);
        c.trace(1, h(&[a.name().as_bytes(), prk, info, &(want.len() as u64).to_le_bytes()]), h(&[&g]));
    }
    c.note(|| format!("{} -> {}", d(), show(want)));
}
pub fn c05(t: bool) -> Vec<Family> {
    let step = 1u64;
    vec![
        fam("output-lengths", "4 hashes x every output length 0..=255 digests", 4 * (255 * 64 / step + 1), move |i, c| {
            let a = al(i);
            let l = (i / 4 * step) as usize;
            if l > 255 * a.size() { return }
            static W: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
            let w = W.get_or_init(|| ALGS.iter().map(|&a| hkdf_expand(a, &pat(30, a.size()), &pat(31, 10), 255 * a.size())).collect());
            check_expand(c, a, &pat(30, a.size()), &pat(31, 10), &w[(i % 4) as usize][..l], 0xee);
        }).grain(16),
        fam("info-lengths", "4 hashes x every info length 0..=400 x output lengths 0, 1, one digest and around it, 3 digests +1", 4 * 401, |i, c| {
            let a = al(i);
            let n = a.size();
            let info = pat(32, (i / 4) as usize);
            let prk = pat(33, n);
            let w = hkdf_expand(a, &prk, &info, 3 * n + 1);
            for l in [0, 1, n - 1, n, n + 1, 2 * n, 3 * n + 1] { check_expand(c, a, &prk, &info, &w[..l], 0) }
        }),
        fam("prk-lengths", "4 hashes x every prk length from one digest to 3 blocks x info lengths 0, 20, 200 x 3 output lengths", 4 * 384 * 3, |i, c| {
            let a = al(i);
            let n = a.size();
            let p = n + (i / 12) as usize;
            if p > 3 * a.block() { return }
            let (prk, info) = (pat(34, p), pat(35, [0, 20, 200][(i / 4 % 3) as usize]));
            let w = hkdf_expand(a, &prk, &info, 4 * n);
            for l in [n, 2 * n + 5, 4 * n] { check_expand(c, a, &prk, &info, &w[..l], 0xff) }
        }).grain(8),
        fam("longest", format!("4 hashes x output of 254..=255 digests (every length) x {} prk/info pairs", if t { 6 } else { 2 }), 4 * (if t { 6 } else { 2 }) * 66, |i, c| {
            let a = al(i);
            let (x, d) = (i / 4 / 66, (i / 4 % 66) as usize);
            if d > a.size() { return }
            let (prk, info) = (pat(40 + x, a.size() + 10 * x as usize), pat(50 + x, (x * 77) as usize));
            let w = hkdf_expand(a, &prk, &info, 254 * a.size() + d);
            check_expand(c, a, &prk, &info, &w, 1)
        }),
        fam("extract", "4 hashes x every salt length 0..=300 x ikm lengths 0, 1, 22, block+-1, 300", 4 * 301 * 6, |i, c| {
            let a = al(i);
            let ikm = pat(61, [0, 1, 22, a.block() - 1, a.block() + 1, 300][(i / 4 % 6) as usize]);
            check_extract(c, a, &pat(60, (i / 24) as usize), &ikm);
        }).grain(16),
        fam("extract-ikm", "4 hashes x every ikm length 0..=400 x salt lengths 0, 13, digest, block, block+1", 4 * 401 * 5, |i, c| {
            let a = al(i);
            let s = pat(62, [0, 13, a.size(), a.block(), a.block() + 1][(i / 4 % 5) as usize]);
            check_extract(c, a, &s, &pat(63, (i / 20) as usize));
        }).grain(16),
        fam("single-bits", "4 hashes x every 1-bit prk (one digest), 1-bit info of 40 bytes, 1-bit salt, 1-bit ikm of 80 bytes", 4 * 4 * 640, |i, c| {
            let a = al(i);
            let bit = (i / 16) as usize;
            let one = |l: usize| { let mut v = vec![0u8; l]; if bit < 8 * l { v[bit / 8] |= 1 << (bit % 8) } v };
            match i / 4 % 4 {
                0 => { let p = one(a.size()); let w = hkdf_expand(a, &p, b"i", 2 * a.size() + 3); check_expand(c, a, &p, b"i", &w, 0) }
                1 => { let f = one(40); let p = vec![7; a.size()]; let w = hkdf_expand(a, &p, &f, 2 * a.size() + 3); check_expand(c, a, &p, &f, &w, 0) }
                2 => { check_extract(c, a, &one(80), b"ikm"); }
                _ => { check_extract(c, a, b"salt", &one(80)); }
            }
        }).grain(16),
        fam("extract-then-expand", "4 hashes x the whole derivation for every (salt length, output length) in 0..=70 x 0..=140", 4 * 71 * 141, |i, c| {
            let a = al(i);
            let (s, l) = ((i / 4 % 71) as usize, (i / 284) as usize);
            let (salt, ikm, info) = (pat(2, s), pat(64, 33), pat(65, s / 2));
            let prk = check_extract(c, a, &salt, &ikm);
            let w = hkdf_expand(a, &prk, &info, l);
            check_expand(c, a, &prk, &info, &w, 0xa5)
        }).grain(32),
        fam("long", format!("4 hashes x one of info, prk, salt, ikm of 2^k + {{-1, 0, 1}} bytes, k = 9..={}, the others short", if t { 26 } else { 20 }), 4 * 4 * 3 * (if t { 18 } else { 12 }), |i, c| {
            let a = al(i);
            let l = (1usize << (9 + i / 48)) + (i / 16 % 3) as usize - 1;
            let n = a.size();
            match i / 4 % 4 {
                0 => { let f = pat(66, l); let p = pat(67, n); let w = hkdf_expand(a, &p, &f, 2 * n + 3); check_expand(c, a, &p, &f, &w, 0) }
                1 => { let p = pat(66, l); let w = hkdf_expand(a, &p, b"info", 2 * n + 3); check_expand(c, a, &p, b"info", &w, 0) }
                2 => { check_extract(c, a, &pat(66, l), b"ikm"); }
                _ => { check_extract(c, a, b"salt", &pat(66, l)); }
            }
        }),
    ]
}
fn check_extract(c: &mut Ctx, a: Alg, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    let w = hmac(a, salt, ikm);
    let mut g = vec![0xd7; a.size()];
    let d = || format!("hkdf-{} extract salt {} ikm {}", a.name(), show(salt), show(ikm));
    if c.must("extract", d, || imp::hkdf_extract(a, salt, ikm, &mut g)).is_some() { c.eq("prk", &g, &w, d); c.trace(1, h(&[a.name().as_bytes(), b"x", salt, b"/", ikm]), h(&[&g])) }
    c.note(|| format!("{} -> {}", d(), hex(&w)));
    w
}
