//! Inputs computed so that an intermediate value or a result of the algorithm is a chosen one.
use crate::engine::*;
use crate::refs::big::Big;
use crate::refs::curve::*;
use crate::refs::sym::*;
use std::sync::OnceLock;
pub type B32 = [u8; 32];
pub fn flip(b: &mut [u8], bit: usize) { b[bit / 8] ^= 1 << (bit % 8) }
pub fn bits(v: &[usize]) -> B32 { let mut b = [0; 32]; for &i in v { flip(&mut b, i) } b }
pub fn ones(lo: usize, hi: usize) -> B32 { let mut b = [0; 32]; for i in lo..hi { flip(&mut b, i) } b }


/// Message whose ciphertext drives the Poly1305 accumulator to `target` just before the final addition of s
/// (`last`), or after the first of two ciphertext blocks (`!last`). Searches deterministically over a leading block.
pub fn steer_poly(key: &[u8], n: &[u8], a: &[u8], target: P130, last: bool) -> Option<Vec<u8>> {
    let otk = chacha_block(key, n, 0);
    let r = poly_r(&otk);
    let ri = r.pow_inv();
    let h0 = poly_absorb(P130([0; 3]), r, a);
    let two128 = P130([0, 0, 1]);
    for v in 0..64u64 {
        let lead: [u8; 16] = mixa(v ^ 0xabc);
        let h1 = poly_absorb(h0, r, &lead);
        let ctlen = if last { 32 } else { 48 };
        let before = if last { target.mul(ri).add(two128.add(P130::from_le(&len_block(a.len(), ctlen))).neg()) } else { target };
        let blk = before.mul(ri).add(h1.add(two128).neg());
        if blk.0[2] != 0 { continue }
        let mut ct = lead.to_vec();
        ct.extend_from_slice(&blk.to_le()[..16]);
        if !last { ct.extend_from_slice(&[0; 16]) }
        let reached = poly_absorb(h0, r, &ct[..32]);
        let fin = if last { poly_absorb(reached, r, &len_block(a.len(), ctlen)) } else { reached };
        assert_eq!(fin, target);
        return Some(chapoly_crypt(key, n, &ct));
    }
    None
}
pub fn poly_targets(s: u128) -> Vec<P130> {
    let p = |lo: u128, hi: u64| P130([lo as u64, (lo >> 64) as u64, hi]).reduce();
    let mut v = vec![];
    for i in 0..6u64 { v.push(P130([i, 0, 0])); v.push(P130([i + 1, 0, 0]).neg()) }
    for k in [8u32, 16, 26, 32, 44, 52, 63, 64, 78, 88, 96, 104, 120, 127] { for d in 0..3u128 { v.push(p((1u128 << k) + d - 1, 0)); v.push(p((1u128 << k) + d - 1, 3)) } }
    for hi in 0..4u64 { v.push(p(0, hi)); v.push(p(u128::MAX - 5, hi)); if hi < 3 { v.push(p(u128::MAX, hi)) } v.push(p(s.wrapping_neg(), hi)); v.push(p((!s).wrapping_sub(hi as u128 * 5), hi)); v.push(p(s, hi)) }
    v
}
/// u-coordinates of every special kind.
pub fn special_u() -> &'static Vec<B32> {
    static S: OnceLock<Vec<B32>> = OnceLock::new();
    S.get_or_init(|| {
        let p = p_big();
        let mut v: Vec<B32> = vec![];
        for i in 0..20u64 { v.push(Big::from_u64(i).to_le()); v.push(p.sub(&Big::from_u64(i + 1)).to_le()) }
        for i in 0..19u64 { v.push(p.add(&Big::from_u64(i)).to_le()) }
        for t in &consts().torsion { if !t.is_id() { v.push(edwards_to_u(t)) } }
        // order-8 u on the twist side: u = -1 (order 4 on the twist)
        let n = v.len();
        for i in 0..n { let mut w = v[i]; w[31] |= 0x80; v.push(w) }
        v.push([0xff; 32]);
        for k in [25, 26, 50, 51, 76, 77, 101, 102, 127, 128, 152, 153, 178, 179, 203, 204, 229, 230, 254] { for d in 0..3u64 { v.push(Big::pow2(k).add(&Big::from_u64(d)).sub(&Big::one()).to_le()) } }
        for i in 0..12 { v.push(mixa(3000 + i)) }
        v
    })
}
pub fn special_k() -> Vec<B32> {
    let l = l_big();
    let mut v = vec![[0u8; 32], [0xff; 32], bits(&[3]), bits(&[254]), bits(&[3, 254]), ones(0, 128), ones(128, 256), [0x55; 32], [0xaa; 32]];
    for m in 1..8u64 { for d in 0..2u64 { v.push(l.mul(&Big::from_u64(m)).add(&Big::from_u64(8 * d)).to_le()) } }
    for i in 0..9 { v.push(mixa(3100 + i)) }
    v
}
pub struct Steer { pub n: Big, pub pts: Vec<B32> }
/// Order of the prime subgroup of the curve and of its twist, each with u-coordinates of subgroup
/// points close to chosen values (0, p, limb boundaries).
pub fn steer_targets() -> &'static [Steer; 2] {
    static S: OnceLock<[Steer; 2]> = OnceLock::new();
    S.get_or_init(|| {
        let (p, l) = (p_big(), l_big());
        // #E + #E' = 2p + 2, #E = 8L, #E' = 4L'
        let tw = p.add(&Big::one()).mul(&Big::from_u64(2)).sub(&l.mul(&Big::from_u64(8))).shr1().shr1();
        let mut out = [Steer { n: l, pts: vec![] }, Steer { n: tw, pts: vec![] }];
        let mut cand = vec![];
        for i in 1..80u64 { cand.push(Big::from_u64(i)); cand.push(p.sub(&Big::from_u64(i))) }
        for k in [25, 26, 50, 51, 52, 76, 77, 78, 101, 102, 103, 127, 128, 129, 152, 153, 154, 178, 179, 180, 203, 204, 205, 229, 230, 231, 252, 253, 254] {
            for d in 0..14u64 { cand.push(Big::pow2(k).add(&Big::from_u64(d))); cand.push(Big::pow2(k).sub(&Big::from_u64(d + 1))) }
        }
        for u in cand {
            let u: B32 = u.to_le();
            for s in &mut out {
                // in the subgroup of odd order n exactly when [n]u is neutral (result 0) and [n + 1]u = u
                // (the second excludes u + (0, 0), for which [n]u = (0, 0) also gives 0)
                if ladder(&s.n.to_le(), &u) == [0; 32] && ladder(&s.n.add(&Big::one()).to_le(), &u) == u { s.pts.push(u) }
            }
        }
        out
    })
}
/// A point u with X25519(k, u) = t.
pub fn steer_u(k: &B32, t: &B32, n: &Big) -> B32 {
    let inv: B32 = Big::from_le(&clamp(k)).rem(n).invmod(n).to_le();
    ladder(&inv, t)
}
pub fn limb_u(mut x: u64, vals: u64) -> B32 {
    let mut r = Big::zero();
    for i in 0..10usize {
        let w = 26 - i % 2;
        let v = match x % vals { 0 => 0, 1 => (1u64 << w) - 1, _ => 1 << (w - 1) };
        x /= vals;
        r = r.add(&Big::from_u64(v).shl((51 * i + 1) / 2));
    }
    r.to_le()
}
