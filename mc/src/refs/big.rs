//! A small, boring arbitrary-precision natural number (little-endian u32 digits). Slow on purpose:
//! it is the second opinion against which the fast references are checked, and does set-up work.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big(pub Vec<u32>);

impl Big {
    pub fn zero() -> Self { Big(vec![]) }
    pub fn from_u64(x: u64) -> Self { let mut b = Big(vec![x as u32, (x >> 32) as u32]); b.trim(); b }
    pub fn one() -> Self { Self::from_u64(1) }
    fn trim(&mut self) { while self.0.last() == Some(&0) { self.0.pop(); } }
    pub fn from_le(b: &[u8]) -> Self {
        let mut v = vec![0u32; (b.len() + 3) / 4];
        for (i, &x) in b.iter().enumerate() { v[i / 4] |= (x as u32) << (8 * (i % 4)); }
        let mut r = Big(v); r.trim(); r
    }
    pub fn to_le<const N: usize>(&self) -> [u8; N] {
        let mut o = [0u8; N];
        for (i, &d) in self.0.iter().enumerate() {
            for j in 0..4 { let b = (d >> (8 * j)) as u8; if 4 * i + j < N { o[4 * i + j] = b } else { assert_eq!(b, 0) } }
        }
        o
    }
    pub fn from_dec(s: &str) -> Self {
        let mut r = Big::zero();
        for c in s.bytes() { r = r.mul(&Big::from_u64(10)).add(&Big::from_u64((c - b'0') as u64)); }
        r
    }
    pub fn pow2(n: usize) -> Self { let mut v = vec![0u32; n / 32 + 1]; v[n / 32] = 1 << (n % 32); Big(v) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn bit(&self, i: usize) -> bool { self.0.get(i / 32).map_or(false, |d| d >> (i % 32) & 1 == 1) }
    pub fn bits(&self) -> usize { self.0.last().map_or(0, |d| 32 * self.0.len() - d.leading_zeros() as usize) }
    pub fn cmp(&self, o: &Self) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn lt(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Less }
    pub fn add(&self, o: &Self) -> Self {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n { c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64; v.push(c as u32); c >>= 32; }
        v.push(c as u32);
        let mut r = Big(v); r.trim(); r
    }
    pub fn sub(&self, o: &Self) -> Self {
        assert!(!self.lt(o));
        let mut v = Vec::with_capacity(self.0.len());
        let mut br = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - br;
            br = 0;
            if d < 0 { d += 1 << 32; br = 1; }
            v.push(d as u32);
        }
        let mut r = Big(v); r.trim(); r
    }
    pub fn mul(&self, o: &Self) -> Self {
        let mut v = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                c += v[i + j] as u64 + a as u64 * b as u64;
                v[i + j] = c as u32; c >>= 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        let mut r = Big(v); r.trim(); r
    }
    pub fn shl(&self, n: usize) -> Self { self.mul(&Big::pow2(n)) }
    pub fn shr1(&self) -> Self {
        let mut v = self.0.clone();
        for i in 0..v.len() { v[i] = v[i] >> 1 | if i + 1 < v.len() { v[i + 1] << 31 } else { 0 }; }
        let mut r = Big(v); r.trim(); r
    }
    /// Shift-and-subtract remainder.
    pub fn rem(&self, m: &Self) -> Self {
        if self.lt(m) { return self.clone(); }
        let sh = self.bits() - m.bits();
        let mut d = m.shl(sh);
        d.trim();
        let mut r = self.clone();
        for _ in 0..=sh { if !r.lt(&d) { r = r.sub(&d); } d = d.shr1(); }
        r
    }
    pub fn mulmod(&self, o: &Self, m: &Self) -> Self { self.mul(o).rem(m) }
    pub fn powmod(&self, e: &Self, m: &Self) -> Self {
        let mut r = Big::one().rem(m);
        for i in (0..e.bits()).rev() { r = r.mulmod(&r, m); if e.bit(i) { r = r.mulmod(self, m); } }
        r
    }
    /// Inverse modulo a prime.
    pub fn invmod(&self, p: &Self) -> Self { self.powmod(&p.sub(&Big::from_u64(2)), p) }
    pub fn submod(&self, o: &Self, m: &Self) -> Self { self.add(m).sub(&o.rem(m)).rem(m) }
    /// Floor of the k-th root (binary search).
    pub fn root(&self, k: u32) -> Self {
        let mut r = Big::zero();
        for i in (0..=self.bits() / k as usize + 1).rev() {
            let t = r.add(&Big::pow2(i));
            let mut pw = Big::one();
            for _ in 0..k { pw = pw.mul(&t); }
            if !self.lt(&pw) { r = t; }
        }
        r
    }
}
