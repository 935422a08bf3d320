//! References for AES, GCM, ChaCha20 and Poly1305, from FIPS-197, SP 800-38D and RFC 8439.
use std::sync::OnceLock;

// ---------------------------------------------------------------- AES
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 { if b & 1 == 1 { r ^= a } let h = a & 0x80 != 0; a <<= 1; if h { a ^= 0x1b } b >>= 1 }
    r
}
pub struct AesTab { pub s: [u8; 256], m2: [u8; 256], m3: [u8; 256] }
pub fn aestab() -> &'static AesTab {
    static T: OnceLock<AesTab> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = AesTab { s: [0; 256], m2: [0; 256], m3: [0; 256] };
        for x in 0..256usize {
            let inv = (0..256usize).map(|y| y as u8).find(|&y| gmul(x as u8, y) == 1).unwrap_or(0);
            let mut b = 0u8;
            for i in 0..8 {
                let bit = |k: u32| inv >> (k % 8) & 1;
                b |= (bit(i) ^ bit(i + 4) ^ bit(i + 5) ^ bit(i + 6) ^ bit(i + 7) ^ (0x63 >> i & 1)) << i;
            }
            t.s[x] = b;
            t.m2[x] = gmul(x as u8, 2);
            t.m3[x] = gmul(x as u8, 3);
        }
        t
    })
}
#[derive(Clone)]
pub struct Aes { rk: Vec<[u8; 16]> }
impl Aes {
    pub fn new(key: &[u8]) -> Self {
        let t = aestab();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [t.s[x[1] as usize] ^ rcon, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]];
                rcon = gmul(rcon, 2);
            } else if nk > 6 && i % nk == 4 { for b in &mut x { *b = t.s[*b as usize] } }
            let p = w[i - nk];
            w.push([p[0] ^ x[0], p[1] ^ x[1], p[2] ^ x[2], p[3] ^ x[3]]);
        }
        Aes { rk: w.chunks(4).map(|c| { let mut r = [0; 16]; for i in 0..16 { r[i] = c[i / 4][i % 4] } r }).collect() }
    }
    /// The key of `nk` words whose schedule holds `window` (nk words) from word `pos` on.
    pub fn key_with(window: &[[u8; 4]], pos: usize) -> Vec<u8> {
        let t = aestab();
        let nk = window.len();
        let rcon = |n: usize| (1..n).fold(1u8, |r, _| gmul(r, 2));
        let mut w = window.to_vec(); // w[j] is schedule word at + j
        for i in (nk..pos + nk).rev() {
            // w[..] holds words i - nk + 1 ..= i; find word i - nk
            let (last, prev) = (w[nk - 1], w[nk - 2]);
            let mut x = prev;
            if i % nk == 0 { x = [t.s[x[1] as usize] ^ rcon(i / nk), t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]] }
            else if nk > 6 && i % nk == 4 { for b in &mut x { *b = t.s[*b as usize] } }
            w.pop();
            w.insert(0, [last[0] ^ x[0], last[1] ^ x[1], last[2] ^ x[2], last[3] ^ x[3]]);
        }
        w.concat()
    }
    pub fn schedule(&self) -> Vec<[u8; 4]> { self.rk.concat().chunks(4).map(|c| c.try_into().unwrap()).collect() }
    pub fn rounds(&self) -> usize { self.rk.len() - 1 }
    /// The block whose S-box input in round `r` (1 to the number of rounds) is `s`.
    pub fn block_with(&self, r: usize, s: &[u8; 16]) -> [u8; 16] {
        let t = aestab();
        let mut inv = [0u8; 256];
        for (x, &y) in t.s.iter().enumerate() { inv[y as usize] = x as u8 }
        let mut s = *s;
        for q in (1..r).rev() {
            for i in 0..16 { s[i] ^= self.rk[q][i] }
            for c in s.chunks_mut(4) {
                let a = [c[0], c[1], c[2], c[3]];
                for i in 0..4 { c[i] = gmul(a[i], 14) ^ gmul(a[(i + 1) % 4], 11) ^ gmul(a[(i + 2) % 4], 13) ^ gmul(a[(i + 3) % 4], 9) }
            }
            let mut n = [0u8; 16];
            for c in 0..4 { for row in 0..4 { n[4 * ((c + row) % 4) + row] = inv[s[4 * c + row] as usize] } }
            s = n;
        }
        for i in 0..16 { s[i] ^= self.rk[0][i] }
        s
    }
    pub fn enc(&self, b: &[u8; 16]) -> [u8; 16] { self.trace(b, |_, _| ()) }
    /// Encrypts and shows each round's S-box input to `f`.
    pub fn trace(&self, b: &[u8; 16], mut f: impl FnMut(usize, &[u8; 16])) -> [u8; 16] {
        let t = aestab();
        let nr = self.rk.len() - 1;
        let mut s = *b;
        for i in 0..16 { s[i] ^= self.rk[0][i] }
        for r in 1..=nr {
            f(r, &s);
            let mut n = [0u8; 16];
            for c in 0..4 { for row in 0..4 { n[4 * c + row] = t.s[s[4 * ((c + row) % 4) + row] as usize] } }
            if r < nr {
                for c in n.chunks_mut(4) {
                    let a = [c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize];
                    for i in 0..4 { c[i] = t.m2[a[i]] ^ t.m3[a[(i + 1) % 4]] ^ a[(i + 2) % 4] as u8 ^ a[(i + 3) % 4] as u8 }
                }
            }
            for i in 0..16 { n[i] ^= self.rk[r][i] }
            s = n;
        }
        s
    }
}

// ---------------------------------------------------------------- GHASH / GCM
/// Product in GF(2^128) with the GCM bit order: reflect, carry-less multiply, reduce by
/// x^128 + x^7 + x^2 + x + 1, reflect back.
pub fn gf_mul(x: u128, y: u128) -> u128 {
    let (a, b) = (x.reverse_bits(), y.reverse_bits());
    let (mut lo, mut hi) = (0u128, 0u128);
    for i in 0..128 { if b >> i & 1 == 1 { lo ^= a << i; if i > 0 { hi ^= a >> (128 - i) } } }
    // fold the high half twice
    for _ in 0..2 {
        let h = hi;
        lo ^= h ^ h << 1 ^ h << 2 ^ h << 7;
        hi = h >> 127 ^ h >> 126 ^ h >> 121;
    }
    lo.reverse_bits()
}
pub struct GHash { tab: Vec<[u128; 256]> }
impl GHash {
    /// 8-bit tables, built by linearity from gf_mul on single bits.
    pub fn new(h: u128) -> Self {
        let mut tab = vec![[0u128; 256]; 16];
        for i in 0..16 {
            for bit in 0..8 {
                let v = gf_mul(1u128 << (8 * i + bit), h);
                for x in 0..256 { if x >> bit & 1 == 1 { tab[i][x] ^= v } }
            }
        }
        GHash { tab }
    }
    pub fn mul(&self, x: u128) -> u128 { let b = x.to_le_bytes(); let mut r = 0; for i in 0..16 { r ^= self.tab[i][b[i] as usize] } r }
    pub fn absorb(&self, mut y: u128, data: &[u8]) -> u128 {
        for c in data.chunks(16) { let mut b = [0; 16]; b[..c.len()].copy_from_slice(c); let x = y ^ u128::from_be_bytes(b); y = if x == 0 { 0 } else { self.mul(x) } }
        y
    }
    pub fn hash(&self, a: &[u8], c: &[u8]) -> u128 {
        let y = self.absorb(self.absorb(0, a), c);
        self.mul(y ^ ((a.len() as u128 * 8) << 64 | (c.len() as u128 * 8)))
    }
}
/// SP 800-38D with a 96-bit IV over any block function.
pub struct GcmRef<F: Fn(&[u8; 16]) -> [u8; 16]> { e: F, gh: GHash }
impl<F: Fn(&[u8; 16]) -> [u8; 16]> GcmRef<F> {
    pub fn new(e: F) -> Self { let h = u128::from_be_bytes(e(&[0; 16])); GcmRef { e, gh: GHash::new(h) } }
    pub fn crypt(&self, nonce: &[u8], m: &[u8]) -> Vec<u8> {
        let mut out = m.to_vec();
        for (i, c) in out.chunks_mut(16).enumerate() {
            let mut b = [0; 16];
            b[..12].copy_from_slice(nonce);
            b[12..].copy_from_slice(&((i as u64 + 2) as u32).to_be_bytes());
            let k = (self.e)(&b);
            for (x, k) in c.iter_mut().zip(k) { *x ^= k }
        }
        out
    }
    pub fn tag(&self, nonce: &[u8], a: &[u8], c: &[u8]) -> [u8; 16] {
        let mut b = [0; 16];
        b[..12].copy_from_slice(nonce);
        b[15] = 1;
        (self.gh.hash(a, c) ^ u128::from_be_bytes((self.e)(&b))).to_be_bytes()
    }
    pub fn seal(&self, nonce: &[u8], a: &[u8], m: &[u8]) -> (Vec<u8>, [u8; 16]) { let c = self.crypt(nonce, m); let t = self.tag(nonce, a, &c); (c, t) }
}

// ---------------------------------------------------------------- ChaCha20
pub fn chacha_block(key: &[u8], nonce: &[u8], counter: u32) -> [u8; 64] {
    let mut s = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).enumerate() { s[i] = u32::from_le_bytes(c.try_into().unwrap()) }
    for i in 0..8 { s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap()) }
    s[12] = counter;
    for i in 0..3 { s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap()) }
    let mut w = s;
    let mut qr = |a: usize, b: usize, c: usize, d: usize| {
        w[a] = w[a].wrapping_add(w[b]); w[d] = (w[d] ^ w[a]).rotate_left(16);
        w[c] = w[c].wrapping_add(w[d]); w[b] = (w[b] ^ w[c]).rotate_left(12);
        w[a] = w[a].wrapping_add(w[b]); w[d] = (w[d] ^ w[a]).rotate_left(8);
        w[c] = w[c].wrapping_add(w[d]); w[b] = (w[b] ^ w[c]).rotate_left(7);
    };
    for _ in 0..10 {
        for i in 0..4 { qr(i, 4 + i, 8 + i, 12 + i) }
        for i in 0..4 { qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4) }
    }
    let mut o = [0; 64];
    for i in 0..16 { o[4 * i..4 * i + 4].copy_from_slice(&w[i].wrapping_add(s[i]).to_le_bytes()) }
    o
}
pub fn chacha_stream(key: &[u8], nonce: &[u8], len: usize) -> Vec<u8> {
    let mut o = Vec::with_capacity(len + 64);
    let mut c = 0;
    while o.len() < len { o.extend_from_slice(&chacha_block(key, nonce, c)); c += 1 }
    o.truncate(len);
    o
}

// ---------------------------------------------------------------- Poly1305
/// Number modulo 2^130-5, always fully reduced, three 64-bit limbs.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct P130(pub [u64; 3]);
const PP: [u64; 3] = [u64::MAX - 4, u64::MAX, 3];
impl P130 {
    pub fn from_le(b: &[u8]) -> Self {
        assert!(b.len() <= 17);
        let mut x = [0u8; 24];
        x[..b.len()].copy_from_slice(b);
        P130([0, 1, 2].map(|i| u64::from_le_bytes(x[8 * i..8 * i + 8].try_into().unwrap()))).reduce()
    }
    fn ge_p(&self) -> bool { (self.0[2], self.0[1], self.0[0]) >= (PP[2], PP[1], PP[0]) }
    pub fn reduce(mut self) -> Self {
        while self.0[2] > 3 {
            let q = self.0[2] >> 2;
            self.0[2] &= 3;
            let mut c = self.0[0] as u128 + 5 * q as u128;
            for i in 0..3 { self.0[i] = c as u64; c >>= 64; if i < 2 { c += self.0[i + 1] as u128 } }
        }
        while self.ge_p() {
            let mut br = 0i128;
            for i in 0..3 { let d = self.0[i] as i128 - PP[i] as i128 + br; self.0[i] = d as u64; br = d >> 64 }
        }
        self
    }
    pub fn add(self, o: Self) -> Self {
        let mut r = [0; 3];
        let mut c = 0u128;
        for i in 0..3 { c += self.0[i] as u128 + o.0[i] as u128; r[i] = c as u64; c >>= 64 }
        P130(r).reduce()
    }
    pub fn neg(self) -> Self {
        let mut r = [0; 3];
        let mut br = 0i128;
        for i in 0..3 { let d = PP[i] as i128 - self.0[i] as i128 + br; r[i] = d as u64; br = d >> 64 }
        P130(r).reduce()
    }
    pub fn mul(self, o: Self) -> Self {
        // 32-bit schoolbook, then fold 2^130 = 5.
        let d = |x: &[u64; 3]| [x[0] as u32, (x[0] >> 32) as u32, x[1] as u32, (x[1] >> 32) as u32, x[2] as u32];
        let (a, b) = (d(&self.0), d(&o.0));
        let mut t = [0u32; 10];
        for i in 0..5 {
            let mut c = 0u64;
            for j in 0..5 { c += t[i + j] as u64 + a[i] as u64 * b[j] as u64; t[i + j] = c as u32; c >>= 32 }
            t[i + 5] = c as u32;
        }
        let lo = P130([t[0] as u64 | (t[1] as u64) << 32, t[2] as u64 | (t[3] as u64) << 32, t[4] as u64 & 3]).reduce();
        // high part = t >> 130
        let mut hi = [0u32; 5];
        for i in 0..5 { hi[i] = t[4 + i] >> 2 | if 5 + i < 10 { t[5 + i] << 30 } else { 0 } }
        let mut r = lo;
        let h = P130([hi[0] as u64 | (hi[1] as u64) << 32, hi[2] as u64 | (hi[3] as u64) << 32, hi[4] as u64]).reduce();
        for _ in 0..5 { r = r.add(h) }
        r
    }
    pub fn pow_inv(self) -> Self {
        // exponent p - 2 = 2^130 - 7
        let e = [u64::MAX - 6, u64::MAX, 3];
        let mut r = P130([1, 0, 0]);
        for i in (0..130).rev() { r = r.mul(r); if e[i / 64] >> (i % 64) & 1 == 1 { r = r.mul(self) } }
        r
    }
    pub fn to_le(self) -> [u8; 17] {
        let mut o = [0; 17];
        for i in 0..17 { o[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8 }
        o
    }
}
pub fn poly_r(otk: &[u8]) -> P130 {
    let mut r: [u8; 16] = otk[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] { r[i] &= 15 }
    for i in [4, 8, 12] { r[i] &= 252 }
    P130::from_le(&r)
}
/// AEAD accumulator absorption: 16-byte zero-padded blocks each with the 2^128 bit.
pub fn poly_absorb(mut h: P130, r: P130, data: &[u8]) -> P130 {
    for c in data.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[16] = 1;
        h = h.add(P130::from_le(&b)).mul(r);
    }
    h
}
pub fn len_block(a: usize, c: usize) -> [u8; 16] {
    let mut b = [0; 16];
    b[..8].copy_from_slice(&(a as u64).to_le_bytes());
    b[8..].copy_from_slice(&(c as u64).to_le_bytes());
    b
}
pub fn poly_finish(h: P130, otk: &[u8]) -> [u8; 16] {
    let s = u128::from_le_bytes(otk[16..32].try_into().unwrap());
    let v = h.0[0] as u128 | (h.0[1] as u128) << 64;
    v.wrapping_add(s).to_le_bytes()
}
pub fn chapoly_tag(key: &[u8], nonce: &[u8], a: &[u8], c: &[u8]) -> [u8; 16] {
    let otk = chacha_block(key, nonce, 0);
    let r = poly_r(&otk);
    let h = poly_absorb(P130([0; 3]), r, a);
    let h = poly_absorb(h, r, c);
    poly_finish(poly_absorb(h, r, &len_block(a.len(), c.len())), &otk)
}
pub fn chapoly_crypt(key: &[u8], nonce: &[u8], m: &[u8]) -> Vec<u8> {
    let mut o = m.to_vec();
    for (i, c) in o.chunks_mut(64).enumerate() { let k = chacha_block(key, nonce, i as u32 + 1); for (x, k) in c.iter_mut().zip(k) { *x ^= k } }
    o
}
pub fn chapoly_seal(key: &[u8], nonce: &[u8], a: &[u8], m: &[u8]) -> (Vec<u8>, [u8; 16]) { let c = chapoly_crypt(key, nonce, m); let t = chapoly_tag(key, nonce, a, &c); (c, t) }
