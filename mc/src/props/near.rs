//! Histories of equal and of almost equal arguments (C18): the result of a call may depend on nothing but its own
//! arguments, so neither the same bytes given to another algorithm just before nor bytes that differ in one bit
//! (or in length) may show. Every family here runs on one thread, so that the history is the one written down.
use super::api::fill;
use crate::engine::*;
use crate::mem::{Place, Placed};
use crate::imp::{self, *};
use crate::refs::curve;
use crate::refs::sha2::{self, Alg, ALGS};
use crate::refs::sym::*;
use crypto_pure::chacha20::Stream;
use crypto_pure::{curve25519 as x, ed25519 as ed};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum J { Block(u8), Seal(u8), Open(u8), Strm, Hash(u8), Mac(u8), MacVer(u8), Ext(u8), Exp(u8), XPk, Dh, EdPk, Sign, Ver }
use J::*;
pub fn all() -> Vec<J> {
    let mut v = vec![Strm];
    for i in 0..3 { v.push(Block(i)) }
    for i in 0..4 { v.extend([Seal(i), Open(i), Hash(i), Mac(i), MacVer(i), Ext(i), Exp(i)]) }
    v.extend([XPk, Dh, EdPk, Sign, Ver]);
    v
}
pub fn slow(j: J) -> bool { matches!(j, XPk | Dh | EdPk | Sign | Ver) }
/// The arguments of a call, by role: key, nonce, extra data, message, tag.
#[derive(Clone, Default)]
pub struct In { pub k: Vec<u8>, pub n: Vec<u8>, pub a: Vec<u8>, pub m: Vec<u8>, pub t: Vec<u8> }
impl In {
    pub fn part(&mut self, i: usize) -> &mut Vec<u8> { match i { 0 => &mut self.k, 1 => &mut self.n, 2 => &mut self.a, 3 => &mut self.m, _ => &mut self.t } }
    fn id(&self) -> u64 { h(&[&self.k, b"|", &self.n, b"|", &self.a, b"|", &self.m, b"|", &self.t]) }
    fn describe(&self) -> String { format!("key {} nonce {} data {} message {} tag {}", show(&self.k), show(&self.n), show(&self.a), show(&self.m), show(&self.t)) }
}
fn a32(b: &[u8]) -> [u8; 32] { b.try_into().unwrap() }
fn okm_len(i: u8) -> usize { 2 * ALGS[i as usize].size() + 5 }
/// The arguments cut from common bytes: the same bytes for every algorithm as far as lengths allow.
pub fn common(j: J, base: &In) -> In {
    let k = |n: usize| base.k[..n].to_vec();
    let mut x = In { k: k(32), n: base.n.clone(), a: base.a.clone(), m: base.m.clone(), t: vec![] };
    match j {
        Block(i) => { x.k = k([16, 24, 32][i as usize]); x.m.resize(16, 0); }
        Seal(i) | Open(i) => { x.k = k(AEADS[i as usize].key_len()); if let Open(_) = j { let (c, t) = AEADS[i as usize].reference(&x.k).seal(&x.n, &x.a, &x.m); x.m = c; x.t = t.to_vec() } }
        MacVer(i) => x.t = sha2::hmac(ALGS[i as usize], &x.k, &x.m),
        Exp(_) => x.k = k(64),
        Dh => x.m.resize(32, 9),
        Ver => { let kp = curve::ed_key(&a32(&x.k)); x.t = curve::ed_sign(&kp, &x.m).to_vec(); x.k = kp.pk.to_vec() }
        _ => {}
    }
    x
}
/// The roles a call of this kind looks at.
pub fn roles(j: J) -> &'static [usize] {
    match j { Block(_) | Mac(_) | Ext(_) | Dh | Sign => &[0, 3], Seal(_) => &[0, 1, 2, 3], Open(_) => &[0, 1, 2, 3, 4], Strm => &[0, 1, 3], Hash(_) => &[3], MacVer(_) | Ver => &[0, 3, 4], Exp(_) => &[0, 2], XPk | EdPk => &[0] }
}
/// Roles whose length is free.
pub fn free(j: J, role: usize) -> bool {
    match j { Block(_) | Dh | XPk | EdPk => false, Seal(_) => role >= 2, Open(_) => role >= 2, Strm => role == 3, Hash(_) | Mac(_) | MacVer(_) | Ext(_) => true, Exp(_) => role == 2, Sign => role == 3, Ver => role == 3 }
}
pub fn expected(j: J, x: &In) -> Vec<u8> {
    let al = |i: u8| -> Alg { ALGS[i as usize] };
    match j {
        Block(_) => Aes::new(&x.k).enc(&x.m[..].try_into().unwrap()).to_vec(),
        Seal(i) => { let (mut c, t) = AEADS[i as usize].reference(&x.k).seal(&x.n, &x.a, &x.m); c.extend(t); c }
        Open(i) => { let r = AEADS[i as usize].reference(&x.k); if r.tag(&x.n, &x.a, &x.m)[..] == x.t[..] { let mut o = vec![1]; o.extend(r.crypt(&x.n, &x.m)); o } else { let mut o = vec![0]; o.extend(fill(x.m.len(), 0x3c)); o } }
        Strm => { let s = chacha_stream(&x.k, &x.n, x.m.len()); s.iter().zip(&x.m).map(|(a, b)| a ^ b).collect() }
        Hash(i) => sha2::hash(al(i), &x.m),
        Mac(i) => sha2::hmac(al(i), &x.k, &x.m),
        MacVer(i) => vec![(sha2::hmac(al(i), &x.k, &x.m) == x.t) as u8],
        Ext(i) => sha2::hmac(al(i), &x.k, &x.m),
        Exp(i) => sha2::hkdf_expand(al(i), &x.k, &x.a, okm_len(i)),
        XPk => { let mut b = [0; 32]; b[0] = 9; curve::x25519(&a32(&x.k), &b).to_vec() }
        Dh => curve::x25519(&a32(&x.k), &a32(&x.m)).to_vec(),
        EdPk => curve::ed_key(&a32(&x.k)).pk.to_vec(),
        Sign => curve::ed_sign(&curve::ed_key(&a32(&x.k)), &x.m).to_vec(),
        Ver => vec![curve::ed_verify(&x.m, &x.t, &x.k) as u8],
    }
}
pub fn observed(j: J, x: &In, obj: Option<&AnyAead>) -> Vec<u8> {
    let al = |i: u8| -> Alg { ALGS[i as usize] };
    match j {
        Block(_) => imp::aes(&x.k, &x.m[..].try_into().unwrap()).to_vec(),
        Seal(i) => { let mut o = fill(x.m.len(), 0x3c); let own; let ob = match obj { Some(o) => o, None => { own = AEADS[i as usize].new(&x.k); &own } }; let t = ob.enc(&x.m, &x.n, &x.a, &mut o); o.extend(t); o }
        Open(i) => { let mut o = fill(x.m.len(), 0x3c); let own; let ob = match obj { Some(o) => o, None => { own = AEADS[i as usize].new(&x.k); &own } }; let g = ob.dec(&x.m, &x.n, &x.a, &x.t, &mut o); o.insert(0, g as u8); o }
        Strm => { let mut o = fill(x.m.len(), 0x3c); Stream::new(&x.k, &x.n).encrypt(&x.m, &mut o); o }
        Hash(i) => imp::digest(al(i), &[&x.m]),
        Mac(i) => imp::hmac(al(i), &x.k, &[&x.m]),
        MacVer(i) => vec![imp::hmac_verify(al(i), &x.k, &x.m, &x.t) as u8],
        Ext(i) => { let mut o = fill(al(i).size(), 0x3c); imp::hkdf_extract(al(i), &x.k, &x.m, &mut o); o }
        Exp(i) => { let mut o = fill(okm_len(i), 0x3c); imp::hkdf_expand(al(i), &x.k, &x.a, &mut o); o }
        XPk => x::gen_pk(&x.k).to_vec(),
        Dh => x::dh(&x.m, &x.k).to_vec(),
        EdPk => ed::gen_pk(&x.k).to_vec(),
        Sign => ed::sign(&x.m, &x.k).to_vec(),
        Ver => vec![ed::verify(&x.m, &x.t, &x.k) as u8],
    }
}
fn step(c: &mut Ctx, j: J, x: &In, want: &[u8], obj: Option<&AnyAead>, story: impl Fn() -> String) -> bool {
    let d = || format!("{j:?} {}\n  {}", x.describe(), story());
    let Some(g) = c.must(&format!("{j:?}"), d, || observed(j, x, obj)) else { return false };
    c.trace(1, h(&[format!("{j:?}").as_bytes(), &x.id().to_le_bytes()]), h(&[&g]));
    c.eq("result", &g, want, d)
}
fn base(i: u64) -> In { In { k: mix(9900 + i, 64), n: mix(9910 + i, 12), a: mix(9920 + i, 23), m: mix(9930 + i, 70), t: vec![] } }

pub fn families(t: bool) -> Vec<Family> {
    let kinds = all();
    let nk = kinds.len() as u64;
    let k1 = kinds.clone();
    let bases = if t { 3 } else { 1 };
    let mut v = vec![
        fam("similar-arguments", format!("{nk} kinds of call x every argument x every single-bit change of it (a quarter of the bits of messages above 32 bytes), one byte more or less at either end, zero-extension: the call before, after, before and after the change, with fresh objects{}", if t { "; 3 base arguments" } else { "" }), nk * bases, move |i, c| {
            let j = k1[(i % nk) as usize];
            let b = common(j, &base(i / nk));
            let wb = expected(j, &b);
            for &r in roles(j) {
                let mut changed: Vec<(String, In)> = vec![];
                let l = b.clone().part(r).len();
                for bit in 0..8 * l {
                    if l > 32 && r != 4 && !t && bit % 4 != (bit / 8) % 4 { continue }
                    if slow(j) && !t && bit >= 16 && bit + 16 < 8 * l && bit % 8 != (bit / 8) % 8 { continue }
                    let mut y = b.clone();
                    y.part(r)[bit / 8] ^= 1 << (bit % 8);
                    changed.push((format!("bit {bit} of argument {r} changed"), y));
                }
                if free(j, r) {
                    let mut y = b.clone(); y.part(r).push(0); changed.push((format!("argument {r} extended by a zero byte"), y));
                    let mut y = b.clone(); y.part(r).insert(0, 0); changed.push((format!("argument {r} extended by a leading zero byte"), y));
                    let mut y = b.clone(); y.part(r).pop(); changed.push((format!("argument {r} without its last byte"), y));
                    let mut y = b.clone(); y.part(r).remove(0); changed.push((format!("argument {r} without its first byte"), y));
                    let mut y = b.clone(); y.part(r).clear(); changed.push((format!("argument {r} empty"), y));
                }
                for (what, y) in changed {
                    let wy = expected(j, &y);
                    for (n, (x, w)) in [(&b, &wb), (&y, &wy), (&b, &wb), (&y, &wy)].into_iter().enumerate() {
                        if !step(c, j, x, w, None, || format!("call {} of 4: alternately without and with {what}", n + 1)) { return }
                    }
                }
            }
            // halves swapped between neighbouring roles
            if let [r, s, ..] = *roles(j) { let mut y = b.clone(); let (p, q) = (y.part(r).clone(), y.part(s).clone()); if p.len() == q.len() { *y.part(r) = q; *y.part(s) = p; let wy = expected(j, &y); for (x, w) in [(&b, &wb), (&y, &wy), (&b, &wb)] { if !step(c, j, x, w, None, || "alternately as given and with two arguments exchanged".into()) { return } } } }
        }),
    ];
    // one object, almost equal nonces, data and messages
    v.push(fam("similar-arguments-one-object", "4 ciphers x {seal, open}: one object, every single-bit change of nonce, data, message (and tag): before, after, before the change", 8, |i, c| {
        let j = if i % 2 == 0 { Seal((i / 2) as u8) } else { Open((i / 2) as u8) };
        let b = common(j, &base(7));
        let wb = expected(j, &b);
        let ob = AEADS[(i / 2) as usize].new(&b.k);
        for r in 1..if i % 2 == 0 { 4 } else { 5 } {
            let l = b.clone().part(r).len();
            for bit in 0..8 * l + 2 {
                let mut y = b.clone();
                if bit < 8 * l { y.part(r)[bit / 8] ^= 1 << (bit % 8) } else if !free(j, r) || r == 4 { continue } else if bit == 8 * l { y.part(r).pop(); } else { y.part(r).push(0) }
                let wy = expected(j, &y);
                for (n, (x, w)) in [(&b, &wb), (&y, &wy), (&b, &wb)].into_iter().enumerate() {
                    if !step(c, j, x, w, Some(&ob), || format!("one object, call {} of 3: without, with, without bit {bit} of argument {r} changed", n + 1)) { return }
                }
            }
        }
    }));
    // the same bytes handed to different algorithms, one after the other
    let fast: Vec<J> = kinds.iter().copied().filter(|&j| !slow(j)).collect();
    let depth = if t { 4 } else { 3 };
    let nf = fast.len() as u64;
    v.push(same_bytes("same-bytes", fast, depth, format!("every sequence of {depth} calls over {nf} kinds (all but the curves) given the same bytes as key, nonce, data and message")));
    v.push(same_bytes("same-bytes-curves", kinds, 2, format!("every sequence of 2 calls over all {nk} kinds given the same bytes")));
    v.push(placements(all(), t));
    if t { v.push(same_bytes("same-bytes-curves-deep", vec![XPk, Dh, EdPk, Sign, Ver, Hash(3), Mac(3), Seal(3)], 4, "every sequence of 4 calls over the curves, SHA-512, HMAC-SHA-512, ChaCha20-Poly1305 given the same bytes".into())) }
    v
}
fn same_bytes(name: &str, kinds: Vec<J>, depth: u32, bounds: String) -> Family {
    let n = kinds.len() as u64;
    let all = n.pow(depth);
    let tab: std::sync::OnceLock<Vec<(In, Vec<u8>)>> = std::sync::OnceLock::new();
    fam(name, bounds, all, move |i, c| {
        let tab = tab.get_or_init(|| kinds.iter().map(|&j| { let x = common(j, &base(3)); let w = expected(j, &x); (x, w) }).collect());
        let seq: Vec<usize> = (0..depth).map(|d| (i / n.pow(d) % n) as usize).collect();
        for (p, &s) in seq.iter().enumerate() {
            if !step(c, kinds[s], &tab[s].0, &tab[s].1, None, || format!("step {} of {:?}", p + 1, seq.iter().map(|&s| kinds[s]).collect::<Vec<_>>())) { return }
        }
    }).grain(all)
}

/// The call with every argument, and the output, placed as asked; role 5 is the output.
fn observed_at(j: J, x: &In, place: [Place; 6]) -> Result<Vec<u8>, &'static str> {
    let al = |i: u8| -> Alg { ALGS[i as usize] };
    let b = |v: &[u8], r: usize| Placed::new(v, place[r]);
    let (k, n, a, m, t) = (b(&x.k, 0), b(&x.n, 1), b(&x.a, 2), b(&x.m, 3), b(&x.t, 4));
    let olen = match j { Seal(_) | Open(_) | Strm => x.m.len(), Hash(i) | Ext(i) => al(i).size(), Exp(i) => okm_len(i), _ => 0 };
    let mut o = b(&fill(olen, 0x3c), 5);
    let (kk, nn, aa, mm, tt) = (k.get(), n.get(), a.get(), m.get(), t.get());
    let r: Vec<u8> = match j {
        Block(i) => {
            use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
            let blk: &[u8; 16] = mm.try_into().unwrap();
            match i { 0 => Aes128::new(kk).permute(blk), 1 => Aes192::new(kk).permute(blk), _ => Aes256::new(kk).permute(blk) }.to_vec()
        }
        Seal(i) => { let t = AEADS[i as usize].new(kk).enc(mm, nn, aa, o.get_mut()); [o.get(), &t].concat() }
        Open(i) => { let g = AEADS[i as usize].new(kk).dec(mm, nn, aa, tt, o.get_mut()); [&[g as u8], o.get()].concat() }
        Strm => { Stream::new(kk, nn).encrypt(mm, o.get_mut()); o.get().to_vec() }
        Hash(i) => { let mut hs = AnyHash::new(al(i)); hs.update(mm); hs.finish_into(o.get_mut()); if imp::digest_wrapper(al(i), mm) != o.get() { return Err("wrapper and object differ") } o.get().to_vec() }
        Mac(i) => { let r = imp::hmac(al(i), kk, &[mm]); if imp::hmac_wrapper(al(i), kk, mm) != r { return Err("wrapper and object differ") } r }
        MacVer(i) => vec![imp::hmac_verify(al(i), kk, mm, tt) as u8],
        Ext(i) => { imp::hkdf_extract(al(i), kk, mm, o.get_mut()); o.get().to_vec() }
        Exp(i) => { imp::hkdf_expand(al(i), kk, aa, o.get_mut()); o.get().to_vec() }
        XPk => x::gen_pk(kk).to_vec(),
        Dh => x::dh(mm, kk).to_vec(),
        EdPk => ed::gen_pk(kk).to_vec(),
        Sign => ed::sign(mm, kk).to_vec(),
        Ver => vec![ed::verify(mm, tt, kk) as u8],
    };
    for (p, w) in [(&k, &x.k), (&n, &x.n), (&a, &x.a), (&m, &x.m), (&t, &x.t)] { if p.get() != &w[..] { return Err("an input buffer was changed") } if !p.surroundings_intact() { return Err("memory beside an input was written") } }
    if !o.surroundings_intact() { return Err("memory beside the output was written") }
    Ok(r)
}
fn placements(kinds: Vec<J>, t: bool) -> Family {
    const G: usize = 66;
    let nk = kinds.len() as u64;
    let lens: &'static [usize] = if t { &[0, 1, 7, 8, 15, 16, 17, 31, 63, 64, 65, 127, 128, 129, 200, 256, 1000, 4096, 4097] } else { &[0, 7, 16, 65, 128, 200] };
    let place = |g: usize| if g < 64 { Place::At(g) } else if g == 64 { Place::BeforeGuard } else { Place::AfterGuard };
    let nl = lens.len() as u64;
    fam("placements", format!("{nk} kinds of call x message lengths {lens:?} x every argument and the output, each alone and all together, at each of the 64 offsets from a 64-byte boundary, right before and right after a page that must not be touched: same result, inputs and neighbouring memory unchanged"), nk * nl, move |i, c| {
        let j = kinds[(i % nk) as usize];
        let mut b = base(11);
        if free(j, 3) { b.m = mix(9940, lens[(i / nk) as usize]) } else if i / nk > 0 { return }
        let x = common(j, &b);
        let w = expected(j, &x);
        let mut sets: Vec<Vec<usize>> = roles(j).iter().map(|&r| vec![r]).collect();
        sets.push(vec![5]);
        sets.push((0..6).collect());
        for s in sets { for g in 0..G {
            if slow(j) && !t && s.len() == 1 && g % 8 != 1 && g < 16 { continue }
            let mut p = [Place::At(0); 6];
            for &r in &s { p[r] = place(g) }
            let d = || format!("{j:?} {}\n  roles {s:?} (0 key, 1 nonce, 2 data, 3 message, 4 tag, 5 output) placed {:?}", x.describe(), place(g));
            let Some(r) = c.must(&format!("{j:?}"), d, || observed_at(j, &x, p)) else { return };
            c.trace(1, h(&[format!("{j:?}{s:?}{g}").as_bytes(), &x.id().to_le_bytes()]), i);
            match r { Err(e) => { c.fail(|| format!("{e}\n  {}", d())); return } Ok(g) => if !c.eq("result", &g, &w, d) { return } }
        } }
    })
}
