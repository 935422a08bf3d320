//! SHA-2 from FIPS 180-4. Constants are computed from the primes, not copied.
use super::big::Big;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alg { S224, S256, S384, S512 }
pub const ALGS: [Alg; 4] = [Alg::S224, Alg::S256, Alg::S384, Alg::S512];
impl Alg {
    pub fn size(self) -> usize { match self { Alg::S224 => 28, Alg::S256 => 32, Alg::S384 => 48, Alg::S512 => 64 } }
    pub fn block(self) -> usize { match self { Alg::S224 | Alg::S256 => 64, _ => 128 } }
    pub fn name(self) -> &'static str { match self { Alg::S224 => "sha224", Alg::S256 => "sha256", Alg::S384 => "sha384", Alg::S512 => "sha512" } }
    pub fn parse(s: &str) -> Alg { *ALGS.iter().find(|a| a.name() == s).expect("alg") }
}

struct Consts { k32: [u32; 64], k64: [u64; 80], iv256: [u32; 8], iv512: [u64; 8], iv224: [u32; 8], iv384: [u64; 8] }
fn primes(n: usize) -> Vec<u64> { (2u64..).filter(|&x| (2..x).take_while(|d| d * d <= x).all(|d| x % d != 0)).take(n).collect() }
/// First 64 bits of the fractional part of the k-th root of p.
fn frac(p: u64, k: u32) -> u64 {
    let r = Big::from_u64(p).shl(64 * k as usize).root(k);
    let b: [u8; 24] = r.to_le();
    u64::from_le_bytes(b[..8].try_into().unwrap())
}
fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let mut c = Consts { k32: [0; 64], k64: [0; 80], iv256: [0; 8], iv512: [0; 8], iv224: [0; 8], iv384: [0; 8] };
        for i in 0..80 { c.k64[i] = frac(p[i], 3); }
        for i in 0..64 { c.k32[i] = (c.k64[i] >> 32) as u32; }
        for i in 0..8 {
            c.iv512[i] = frac(p[i], 2);
            c.iv256[i] = (c.iv512[i] >> 32) as u32;
            c.iv384[i] = frac(p[i + 8], 2);
            c.iv224[i] = c.iv384[i] as u32;
        }
        c
    })
}

fn block256(h: &mut [u32; 8], b: &[u8], k: &[u32; 64]) {
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap()); }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = s1.wrapping_add(w[i - 7]).wrapping_add(s0).wrapping_add(w[i - 16]);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
}
fn block512(h: &mut [u64; 8], b: &[u8], k: &[u64; 80]) {
    let mut w = [0u64; 80];
    for i in 0..16 { w[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
    for i in 16..80 {
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        w[i] = s1.wrapping_add(w[i - 7]).wrapping_add(s0).wrapping_add(w[i - 16]);
    }
    let mut v = *h;
    for i in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
}

/// Chaining state after whole blocks; lets a sweep over lengths reuse the common prefix.
#[derive(Clone)]
pub struct Chain { alg: Alg, h32: [u32; 8], h64: [u64; 8], absorbed: u128 }
impl Chain {
    pub fn new(alg: Alg) -> Self {
        let c = consts();
        Chain {
            alg, absorbed: 0,
            h32: if alg == Alg::S224 { c.iv224 } else { c.iv256 },
            h64: if alg == Alg::S384 { c.iv384 } else { c.iv512 },
        }
    }
    /// Absorbs whole blocks.
    pub fn blocks(&mut self, data: &[u8]) {
        let bs = self.alg.block();
        assert_eq!(data.len() % bs, 0);
        self.absorbed += data.len() as u128;
        let c = consts();
        for b in data.chunks(bs) { if bs == 64 { block256(&mut self.h32, b, &c.k32) } else { block512(&mut self.h64, b, &c.k64) } }
    }
    /// Digest of everything absorbed followed by `rest`.
    pub fn finish(&self, rest: &[u8]) -> Vec<u8> {
        let mut s = self.clone();
        let bs = s.alg.block();
        let total = s.absorbed + rest.len() as u128;
        let mut m = rest.to_vec();
        m.push(0x80);
        let lf = bs / 8;
        while m.len() % bs != bs - lf { m.push(0); }
        let bits = (total * 8).to_be_bytes();
        m.extend_from_slice(&bits[16 - lf..]);
        s.blocks(&m);
        let mut o = Vec::with_capacity(64);
        if bs == 64 { for x in s.h32 { o.extend_from_slice(&x.to_be_bytes()) } } else { for x in s.h64 { o.extend_from_slice(&x.to_be_bytes()) } }
        o.truncate(s.alg.size());
        o
    }
}
pub fn hash(alg: Alg, m: &[u8]) -> Vec<u8> {
    let mut c = Chain::new(alg);
    let n = m.len() / alg.block() * alg.block();
    c.blocks(&m[..n]);
    c.finish(&m[n..])
}
/// Digests of every prefix m[..0], m[..1], ..., m[..=m.len()].
pub fn prefix_digests(alg: Alg, m: &[u8]) -> Vec<Vec<u8>> {
    let bs = alg.block();
    let mut c = Chain::new(alg);
    let mut out = Vec::with_capacity(m.len() + 1);
    let mut base = 0;
    for n in 0..=m.len() {
        if n - base == bs { c.blocks(&m[base..n]); base = n; }
        out.push(c.finish(&m[base..n]));
    }
    out
}
pub fn hmac(alg: Alg, key: &[u8], m: &[u8]) -> Vec<u8> { hmac_gen(&|x| hash(alg, x), alg.block(), key, m) }
/// RFC 2104 over any hash given as a function.
pub fn hmac_gen(h: &dyn Fn(&[u8]) -> Vec<u8>, block: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block.max(k.len()), 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(m);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&h(&i));
    h(&o)
}
/// The RFC 5869 output stream, first `len` bytes.
pub fn hkdf_expand(alg: Alg, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> { hkdf_expand_gen(&|k, m| hmac(alg, k, m), prk, info, len) }
pub fn hkdf_expand_gen(mac: &dyn Fn(&[u8], &[u8]) -> Vec<u8>, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u32;
    while out.len() < len {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(u8::try_from(i).expect("L <= 255*HashLen"));
        t = mac(prk, &m);
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}

/// Message blocks that bring chosen values into the middle of a compression (word arithmetic modulo 2^bits).
pub struct Steer { bits: u32, k: Vec<u64>, r: [u32; 12], iv: [u64; 8] }
impl Steer {
    pub fn new(alg: Alg) -> Steer {
        let c = consts();
        if alg.block() == 64 { Steer { bits: 32, k: c.k32.iter().map(|&x| x as u64).collect(), r: [7, 18, 3, 17, 19, 10, 6, 11, 25, 2, 13, 22], iv: (if alg == Alg::S224 { c.iv224 } else { c.iv256 }).map(|x| x as u64) } }
        else { Steer { bits: 64, k: c.k64.to_vec(), r: [1, 8, 7, 19, 61, 6, 14, 18, 41, 28, 34, 39], iv: if alg == Alg::S384 { c.iv384 } else { c.iv512 } } }
    }
    pub fn rounds(&self) -> usize { self.k.len() }
    pub fn bits(&self) -> u32 { self.bits }
    fn m(&self, x: u64) -> u64 { if self.bits == 32 { x & 0xffff_ffff } else { x } }
    fn rot(&self, x: u64, n: u32) -> u64 { if self.bits == 32 { (x as u32).rotate_right(n) as u64 } else { x.rotate_right(n) } }
    fn s0(&self, x: u64) -> u64 { self.rot(x, self.r[0]) ^ self.rot(x, self.r[1]) ^ x >> self.r[2] }
    fn s1(&self, x: u64) -> u64 { self.rot(x, self.r[3]) ^ self.rot(x, self.r[4]) ^ x >> self.r[5] }
    fn t2(&self, a: u64, b: u64, c: u64) -> u64 { self.m((self.rot(a, self.r[9]) ^ self.rot(a, self.r[10]) ^ self.rot(a, self.r[11])).wrapping_add(a & b ^ a & c ^ b & c)) }
    fn t1(&self, s: &[u64; 8], w: u64, k: u64) -> u64 { let e = s[4]; self.m(s[7].wrapping_add(self.rot(e, self.r[6]) ^ self.rot(e, self.r[7]) ^ self.rot(e, self.r[8])).wrapping_add(e & s[5] ^ !e & s[6]).wrapping_add(k).wrapping_add(w)) }
    pub fn bytes(&self, w: &[u64]) -> Vec<u8> { w.iter().flat_map(|x| x.to_be_bytes()[8 - self.bits as usize / 8..].to_vec()).collect() }
    /// The block whose message schedule holds `window` (16 words) from word `t` on.
    pub fn schedule(&self, window: &[u64; 16], t: usize) -> Vec<u8> {
        let mut w = window.to_vec();
        for _ in 0..t {
            // w holds words i - 15 ..= i; find word i - 16
            let x = self.m(w[15].wrapping_sub(self.s1(w[13])).wrapping_sub(w[8]).wrapping_sub(self.s0(w[0])));
            w.pop();
            w.insert(0, x);
        }
        self.bytes(&w)
    }
    /// The first block whose working variables a..h after `t` rounds (8 to 16) are `v`; the words outside the eight that decide are `fill`.
    pub fn variables(&self, v: &[u64; 8], t: usize, fill: u64) -> Vec<u8> {
        // a-values of the last eight rounds, newest first
        let mut a = vec![v[0], v[1], v[2], v[3]];
        // e of round i is a of round i - 4 plus T1, and a of round i is T1 + T2
        for j in 0..4 {
            let t2 = if j == 0 { self.t2(v[1], v[2], v[3]) } else { self.t2(a[j + 1], a[j + 2], a[j + 3]) };
            let x = self.m(v[4 + j].wrapping_sub(a[j].wrapping_sub(t2)));
            a.push(x);
        }
        let mut w = vec![self.m(fill); 16];
        let mut s = self.iv;
        for i in 0..t {
            let t2 = self.t2(s[0], s[1], s[2]);
            if i + 8 >= t { let want = a[t - 1 - i]; w[i] = self.m(want.wrapping_sub(t2).wrapping_sub(self.t1(&s, 0, self.k[i]))) }
            let t1 = self.t1(&s, w[i], self.k[i]);
            s = [self.m(t1.wrapping_add(t2)), s[0], s[1], s[2], self.m(s[3].wrapping_add(t1)), s[4], s[5], s[6]];
        }
        assert!(s == *v, "steering failed");
        self.bytes(&w)
    }
}
