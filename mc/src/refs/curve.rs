//! References for X25519 (RFC 7748) and Ed25519 (RFC 8032), written from the RFCs with 5x51-bit limbs.
//! The field and scalar arithmetic is cross-checked against `big` in the self-test.
use super::big::Big;
use super::sha2::{hash, Alg};
use std::sync::OnceLock;

// ---------------------------------------------------------------- field 2^255-19
#[derive(Clone, Copy, Debug)]
pub struct F(pub [u64; 5]);
const M51: u64 = (1 << 51) - 1;
impl F {
    pub const ZERO: F = F([0; 5]);
    pub const ONE: F = F([1, 0, 0, 0, 0]);
    pub fn small(x: u64) -> F { F([x & M51, x >> 51, 0, 0, 0]) }
    /// Low 255 bits of the string.
    pub fn from_le(b: &[u8; 32]) -> F {
        let w = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        F([w(0) & M51, w(6) >> 3 & M51, w(12) >> 6 & M51, w(19) >> 1 & M51, w(24) >> 12 & M51])
    }
    fn carry(mut self) -> F {
        for _ in 0..2 {
            let mut c = 0;
            for i in 0..5 { self.0[i] += c; c = self.0[i] >> 51; self.0[i] &= M51 }
            self.0[0] += 19 * c;
        }
        self
    }
    pub fn to_le(self) -> [u8; 32] {
        let mut a = self.carry().carry();
        // now < 2^255 + small; subtract p if needed
        let mut q = (a.0[0] + 19) >> 51;
        for i in 1..5 { q = (a.0[i] + q) >> 51 }
        a.0[0] += 19 * q;
        let mut c = 0;
        for i in 0..5 { a.0[i] += c; c = a.0[i] >> 51; a.0[i] &= M51 }
        let mut o = [0u8; 32];
        for i in 0..255 { if a.0[i / 51] >> (i % 51) & 1 == 1 { o[i / 8] |= 1 << (i % 8) } }
        o
    }
    pub fn add(self, o: F) -> F { let mut r = [0; 5]; for i in 0..5 { r[i] = self.0[i] + o.0[i] } F(r).carry() }
    pub fn sub(self, o: F) -> F {
        // add 4p so that limbs stay positive (inputs are carried: limbs < 2^52)
        const P4: [u64; 5] = [4 * (M51 - 18), 4 * M51, 4 * M51, 4 * M51, 4 * M51];
        let mut r = [0; 5];
        for i in 0..5 { r[i] = self.0[i] + P4[i] - o.0[i] }
        F(r).carry()
    }
    pub fn neg(self) -> F { F::ZERO.sub(self) }
    pub fn mul(self, o: F) -> F {
        let (a, b) = (&self.0, &o.0);
        let m = |x: u64, y: u64| x as u128 * y as u128;
        let mut t = [
            m(a[0], b[0]) + 19 * (m(a[1], b[4]) + m(a[2], b[3]) + m(a[3], b[2]) + m(a[4], b[1])),
            m(a[0], b[1]) + m(a[1], b[0]) + 19 * (m(a[2], b[4]) + m(a[3], b[3]) + m(a[4], b[2])),
            m(a[0], b[2]) + m(a[1], b[1]) + m(a[2], b[0]) + 19 * (m(a[3], b[4]) + m(a[4], b[3])),
            m(a[0], b[3]) + m(a[1], b[2]) + m(a[2], b[1]) + m(a[3], b[0]) + 19 * m(a[4], b[4]),
            m(a[0], b[4]) + m(a[1], b[3]) + m(a[2], b[2]) + m(a[3], b[1]) + m(a[4], b[0]),
        ];
        let mut r = [0u64; 5];
        let mut c = 0u128;
        for i in 0..5 { t[i] += c; r[i] = t[i] as u64 & M51; c = t[i] >> 51 }
        c = c * 19 + r[0] as u128;
        r[0] = c as u64 & M51;
        r[1] += (c >> 51) as u64;
        F(r)
    }
    pub fn sq(self) -> F { self.mul(self) }
    fn pow_bits(self, bit: impl Fn(usize) -> bool, n: usize) -> F { let mut r = F::ONE; for i in (0..n).rev() { r = r.sq(); if bit(i) { r = r.mul(self) } } r }
    /// x^(2^255-21)
    pub fn inv(self) -> F {
        // 2^255-21 = 2^5*(2^250-1) + 11
        let p250 = self.pow2m1_250();
        let mut r = p250;
        for _ in 0..5 { r = r.sq() }
        r.mul(self.pow_bits(|i| 11 >> i & 1 == 1, 4))
    }
    fn sqn(mut self, n: usize) -> F { for _ in 0..n { self = self.sq() } self }
    fn pow2m1_250(self) -> F {
        // a_k = x^(2^k - 1); a_{i+j} = a_i^(2^j) a_j
        let a1 = self;
        let a2 = a1.sqn(1).mul(a1);
        let a4 = a2.sqn(2).mul(a2);
        let a5 = a4.sqn(1).mul(a1);
        let a10 = a5.sqn(5).mul(a5);
        let a20 = a10.sqn(10).mul(a10);
        let a25 = a20.sqn(5).mul(a5);
        let a50 = a25.sqn(25).mul(a25);
        let a100 = a50.sqn(50).mul(a50);
        let a125 = a100.sqn(25).mul(a25);
        a125.sqn(125).mul(a125)
    }
    /// x^((p-5)/8) = x^(2^252 - 3)
    pub fn pow_p58(self) -> F { self.pow2m1_250().sqn(2).mul(self) }
    pub fn eq(self, o: F) -> bool { self.to_le() == o.to_le() }
    pub fn is_zero(self) -> bool { self.to_le() == [0; 32] }
    pub fn odd(self) -> bool { self.to_le()[0] & 1 == 1 }
    /// A square root if there is one.
    pub fn sqrt(self) -> Option<F> { F::sqrt_ratio(self, F::ONE) }
    /// sqrt(u/v) as in RFC 8032 5.1.3.
    pub fn sqrt_ratio(u: F, v: F) -> Option<F> {
        let v3 = v.sq().mul(v);
        let v7 = v3.sq().mul(v);
        let x = u.mul(v3).mul(u.mul(v7).pow_p58());
        let vxx = v.mul(x.sq());
        if vxx.eq(u) { Some(x) } else if vxx.eq(u.neg()) { Some(x.mul(consts().sqrtm1)) } else { None }
    }
}
pub fn p_big() -> Big { Big::pow2(255).sub(&Big::from_u64(19)) }
pub fn l_big() -> Big { Big::pow2(252).add(&Big::from_dec("27742317777372353535851937790883648493")) }

pub struct Consts { pub d: F, pub sqrtm1: F, pub b: Pt, pub table: Vec<[Pt; 16]>, pub torsion: Vec<Pt> }
pub fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let p = p_big();
        let f = |b: &Big| F::from_le(&b.to_le());
        let d = f(&p.sub(&Big::from_u64(121665)).mulmod(&Big::from_u64(121666).invmod(&p), &p));
        // sqrt(-1) = 2^((p-1)/4)
        let e = p.sub(&Big::one()).shr1().shr1();
        let sqrtm1 = f(&Big::from_u64(2).powmod(&e, &p));
        let y = f(&Big::from_u64(4).mulmod(&Big::from_u64(5).invmod(&p), &p));
        let mut c = Consts { d, sqrtm1, b: Pt::id(), table: vec![], torsion: vec![] };
        // x from y by the curve equation, even root: x^2 = (y^2-1)/(dy^2+1)
        let (u, v) = (y.sq().sub(F::ONE), d.mul(y.sq()).add(F::ONE));
        let xx = u.mul(v.inv());
        let mut x = xx.mul(xx.pow_p58()).mul(F::ONE);
        // candidate x = xx^((p+3)/8) = xx * xx^((p-5)/8)
        if !x.sq().eq(xx) { x = x.mul(sqrtm1) }
        assert!(x.sq().eq(xx));
        if x.odd() { x = x.neg() }
        c.b = Pt { x, y, z: F::ONE, t: x.mul(y) };
        let mut base = c.b;
        for _ in 0..64 {
            let mut row = [Pt::id(); 16];
            for j in 1..16 { row[j] = row[j - 1].add_d(&base, d) }
            base = row[15].add_d(&base, d);
            c.table.push(row);
        }
        // torsion: a point of order 8 is L * Q for some Q; search small y
        let mut yy = 2u64;
        let t8 = loop {
            let y = F::small(yy);
            yy += 1;
            let (u, v) = (y.sq().sub(F::ONE), d.mul(y.sq()).add(F::ONE));
            let xx = u.mul(v.inv());
            let mut x = xx.mul(xx.pow_p58());
            if !x.sq().eq(xx) { x = x.mul(sqrtm1) }
            if !x.sq().eq(xx) { continue }
            let q = Pt { x, y, z: F::ONE, t: x.mul(y) };
            let mut r = Pt::id();
            let l = l_big();
            for i in (0..253).rev() { r = r.add_d(&r, d); if l.bit(i) { r = r.add_d(&q, d) } }
            let r4 = { let a = r.add_d(&r, d); a.add_d(&a, d) };
            if !r4.is_id() { break r }
        };
        let mut t = Pt::id();
        for _ in 0..8 { c.torsion.push(t); t = t.add_d(&t8, d) }
        assert!(t.is_id());
        c
    })
}

// ---------------------------------------------------------------- twisted Edwards points
#[derive(Clone, Copy, Debug)]
pub struct Pt { pub x: F, pub y: F, pub z: F, pub t: F }
impl Pt {
    pub fn id() -> Pt { Pt { x: F::ZERO, y: F::ONE, z: F::ONE, t: F::ZERO } }
    pub fn is_id(&self) -> bool { self.x.is_zero() && self.y.eq(self.z) }
    fn add_d(&self, o: &Pt, d: F) -> Pt {
        let a = self.y.sub(self.x).mul(o.y.sub(o.x));
        let b = self.y.add(self.x).mul(o.y.add(o.x));
        let c = self.t.mul(o.t).mul(d); let c = c.add(c);
        let zz = self.z.mul(o.z); let zz = zz.add(zz);
        let (e, f, g, h) = (b.sub(a), zz.sub(c), zz.add(c), b.add(a));
        Pt { x: e.mul(f), y: g.mul(h), t: e.mul(h), z: f.mul(g) }
    }
    pub fn add(&self, o: &Pt) -> Pt { self.add_d(o, consts().d) }
    pub fn dbl(&self) -> Pt {
        let (a, b, c) = (self.x.sq(), self.y.sq(), self.z.sq());
        let c = c.add(c);
        let h = a.add(b);
        let e = h.sub(self.x.add(self.y).sq());
        let g = a.sub(b);
        let f = c.add(g);
        Pt { x: e.mul(f), y: g.mul(h), t: e.mul(h), z: f.mul(g) }
    }
    pub fn neg(&self) -> Pt { Pt { x: self.x.neg(), y: self.y, z: self.z, t: self.t.neg() } }
    pub fn enc(&self) -> [u8; 32] {
        let zi = self.z.inv();
        let mut o = self.y.mul(zi).to_le();
        if self.x.mul(zi).odd() { o[31] |= 0x80 }
        o
    }
    /// 4-bit windows, most significant first.
    pub fn mul(&self, s: &[u8; 32]) -> Pt {
        let mut tab = [Pt::id(); 16];
        for j in 1..16 { tab[j] = tab[j - 1].add(self) }
        let mut r = Pt::id();
        for i in (0..64).rev() {
            r = r.dbl().dbl().dbl().dbl();
            r = r.add(&tab[(s[i / 2] >> (4 * (i % 2)) & 15) as usize]);
        }
        r
    }
    pub fn base(s: &[u8; 32]) -> Pt {
        let t = &consts().table;
        let mut r = Pt::id();
        for i in 0..64 { let d = (s[i / 2] >> (4 * (i % 2)) & 15) as usize; if d > 0 { r = r.add(&t[i][d]) } }
        r
    }
    /// RFC 8032 5.1.3, strict.
    pub fn dec(s: &[u8]) -> Option<Pt> {
        let mut b: [u8; 32] = s.try_into().ok()?;
        let sign = b[31] >> 7;
        b[31] &= 0x7f;
        let y = F::from_le(&b);
        if y.to_le() != b { return None }
        Pt::from_y(y, sign)
    }
    pub fn from_y(y: F, sign: u8) -> Option<Pt> {
        let yy = y.sq();
        let mut x = F::sqrt_ratio(yy.sub(F::ONE), consts().d.mul(yy).add(F::ONE))?;
        if x.is_zero() && sign == 1 { return None }
        if x.odd() != (sign == 1) { x = x.neg() }
        Some(Pt { x, y, z: F::ONE, t: x.mul(y) })
    }
}

// ---------------------------------------------------------------- scalars modulo L
pub type Sc = [u8; 32];
const LW: [u64; 4] = [0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0, 0x1000000000000000];
fn words(b: &[u8; 32]) -> [u64; 4] { [0, 1, 2, 3].map(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap())) }
fn unwords(w: [u64; 4]) -> Sc { let mut o = [0; 32]; for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes()) } o }
fn ge(a: &[u64; 4], b: &[u64; 4]) -> bool { (a[3], a[2], a[1], a[0]) >= (b[3], b[2], b[1], b[0]) }
fn subw(a: &mut [u64; 4], b: &[u64; 4]) { let mut br = false; for i in 0..4 { let (x, c1) = a[i].overflowing_sub(b[i]); let (x, c2) = x.overflowing_sub(br as u64); a[i] = x; br = c1 | c2 } }
fn reduce_words(x: &[u64]) -> Sc {
    let mut r = [0u64; 4];
    for i in (0..64 * x.len()).rev() {
        let bit = x[i / 64] >> (i % 64) & 1;
        for k in (1..4).rev() { r[k] = r[k] << 1 | r[k - 1] >> 63 }
        r[0] = r[0] << 1 | bit;
        if ge(&r, &LW) { subw(&mut r, &LW) }
    }
    unwords(r)
}
pub fn sc_reduce(b: &[u8]) -> Sc {
    let mut x = vec![0u64; (b.len() + 7) / 8];
    for (i, &v) in b.iter().enumerate() { x[i / 8] |= (v as u64) << (8 * (i % 8)) }
    reduce_words(&x)
}
pub fn sc_lt_l(b: &[u8; 32]) -> bool { !ge(&words(b), &LW) }
pub fn sc_mul(a: &Sc, b: &Sc) -> Sc {
    let (a, b) = (words(a), words(b));
    let mut t = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 { c += t[i + j] as u128 + a[i] as u128 * b[j] as u128; t[i + j] = c as u64; c >>= 64 }
        t[i + 4] = c as u64;
    }
    reduce_words(&t)
}
pub fn sc_add(a: &Sc, b: &Sc) -> Sc {
    let (a, b) = (words(a), words(b));
    let mut t = [0u64; 5];
    let mut c = 0u128;
    for i in 0..4 { c += a[i] as u128 + b[i] as u128; t[i] = c as u64; c >>= 64 }
    t[4] = c as u64;
    reduce_words(&t)
}
pub fn sc_neg(a: &Sc) -> Sc { let mut r = LW; let a = words(&sc_reduce(a)); subw(&mut r, &a); reduce_words(&r) }
pub fn sc_small(x: u64) -> Sc { let mut o = [0; 32]; o[..8].copy_from_slice(&x.to_le_bytes()); o }
/// s + L as a plain 256-bit number (no reduction); None on overflow.
pub fn add_l(s: &[u8; 32], times: u32) -> Option<[u8; 32]> {
    let mut w = words(s);
    for _ in 0..times {
        let mut c = 0u128;
        for i in 0..4 { c += w[i] as u128 + LW[i] as u128; w[i] = c as u64; c >>= 64 }
        if c > 0 { return None }
    }
    Some(unwords(w))
}

// ---------------------------------------------------------------- X25519
pub fn clamp(k: &[u8; 32]) -> [u8; 32] { let mut k = *k; k[0] &= 248; k[31] &= 127; k[31] |= 64; k }
/// RFC 7748 section 5 ladder on an already prepared scalar (all 255 bits used).
pub fn ladder(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let x1 = F::from_le(u);
    let a24 = F::small(121665);
    let (mut x2, mut z2, mut x3, mut z3) = (F::ONE, F::ZERO, x1, F::ONE);
    let mut swap = false;
    for t in (0..255).rev() {
        let b = k[t / 8] >> (t % 8) & 1 == 1;
        if swap ^ b { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3) }
        swap = b;
        let a = x2.add(z2); let aa = a.sq();
        let bb_ = x2.sub(z2); let bb = bb_.sq();
        let e = aa.sub(bb);
        let c = x3.add(z3); let d = x3.sub(z3);
        let da = d.mul(a); let cb = c.mul(bb_);
        x3 = da.add(cb).sq();
        z3 = x1.mul(da.sub(cb).sq());
        x2 = aa.mul(bb);
        z2 = e.mul(aa.add(a24.mul(e)));
    }
    if swap { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3) }
    x2.mul(z2.inv()).to_le()
}
pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] { ladder(&clamp(k), u) }

// ---------------------------------------------------------------- Ed25519
pub struct EdKey { pub a: Sc, pub prefix: [u8; 32], pub pk: [u8; 32] }
pub fn ed_key(seed: &[u8; 32]) -> EdKey {
    let h = hash(Alg::S512, seed);
    let mut a: Sc = h[..32].try_into().unwrap();
    a[0] &= 248; a[31] &= 127; a[31] |= 64;
    EdKey { a, prefix: h[32..].try_into().unwrap(), pk: Pt::base(&a).enc() }
}
pub fn hram(r: &[u8], pk: &[u8], m: &[u8]) -> Sc {
    let mut x = r.to_vec();
    x.extend_from_slice(pk);
    x.extend_from_slice(m);
    sc_reduce(&hash(Alg::S512, &x))
}
pub fn ed_sign(k: &EdKey, m: &[u8]) -> [u8; 64] {
    let mut x = k.prefix.to_vec();
    x.extend_from_slice(m);
    sign_with(&k.a, &sc_reduce(&hash(Alg::S512, &x)), &k.pk, m)
}
/// Signature with a chosen secret scalar and nonce scalar.
pub fn sign_with(a: &Sc, r: &Sc, pk: &[u8; 32], m: &[u8]) -> [u8; 64] {
    let rb = Pt::base(r).enc();
    let s = sc_add(&sc_reduce(r), &sc_mul(&hram(&rb, pk, m), &sc_reduce(a)));
    let mut o = [0; 64];
    o[..32].copy_from_slice(&rb);
    o[32..].copy_from_slice(&s);
    o
}
/// RFC 8032 verification (group equation without the cofactor, as the library documents by its lineage).
pub fn ed_verify(m: &[u8], sig: &[u8], pk: &[u8]) -> bool {
    if sig.len() != 64 { return false }
    let s: [u8; 32] = sig[32..].try_into().unwrap();
    if !sc_lt_l(&s) { return false }
    let a = match Pt::dec(pk) { Some(a) => a, None => return false };
    let k = hram(&sig[..32], pk, m);
    Pt::base(&s).add(&a.neg().mul(&k)).enc() == sig[..32]
}
/// Montgomery u of an Edwards point.
pub fn edwards_to_u(p: &Pt) -> [u8; 32] { p.z.add(p.y).mul(p.z.sub(p.y).inv()).to_le() }
