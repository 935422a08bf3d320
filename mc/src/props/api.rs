//! C17 (panics exactly on violated preconditions), C18 (no hidden state), C23 (16-byte comparison).
use crate::engine::*;
use crate::imp::{self, *};
use crate::mem::Long;
use crate::refs::curve;
use crate::refs::sha2::{hash, hmac as rhmac, Alg, ALGS};
use crate::refs::sym::*;
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::{curve25519 as x, ed25519 as ed, util};
use std::sync::OnceLock;

pub fn fill(n: usize, s: u8) -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(29) ^ s).collect() }
/// The call must panic iff `bad`; `bufs` gives the caller's buffers as they are afterwards, with what they held before.
fn expect(c: &mut Ctx, bad: bool, what: &str, d: impl Fn() -> String, r: Result<(), String>, bufs: &[(&[u8], &[u8])]) {
    match (&r, bad) {
        (Ok(_), true) => c.fail(|| format!("{what} returned although a documented precondition is violated\n  {}", d())),
        (Err(m), false) => c.fail(|| format!("{what} panicked on valid input: {m}\n  {}", d())),
        _ => {}
    }
    if bad { for (now, before) in bufs { c.eq(&format!("buffer after a refused {what} (must be unchanged)"), now, before, &d); } }
    c.count(if bad { "calls that must panic" } else { "calls that must return" }, 1);
    c.trace(1, h(&[what.as_bytes(), d().as_bytes()]), r.is_ok() as u64);
    c.note(|| format!("{what}: {} -> {}", d(), if bad { "refused" } else { "accepted" }));
}
fn mk_aes(n: usize, key: &[u8]) -> [u8; 16] { match n { 16 => Aes128::new(key).permute(&[7; 16]), 24 => Aes192::new(key).permute(&[7; 16]), _ => Aes256::new(key).permute(&[7; 16]) } }

pub fn c17(t: bool) -> Vec<Family> {
    let g = if t { 70u64 } else { 40 };
    let okm_lens = |d: usize| -> Vec<usize> { let m = 255 * d; let mut v: Vec<usize> = (0..=2 * d + 1).collect(); v.extend([m - d - 1, m - d, m - 1, m, m + 1, m + 2, m + d - 1, m + d, m + d + 1, 257 * d, 300 * d, 510 * d, 511 * d, 512 * d, 65535 * d, 65536 * d + 1]); v };
    let mut v = vec![
        fam("digest-output", "SHA-2 objects x output lengths 0..=300 (and digest + 256, 65536, 65536 + digest) x 3 message lengths", 4 * 305 * 3, |i, c| {
            let a = ALGS[(i % 4) as usize];
            let l = (i / 12) as usize;
            let l = if l > 300 { [a.size() + 256, 65536, 65536 + a.size(), 512][l - 301] } else { l };
            let m = pat(2, [0usize, 3, 200][(i / 4 % 3) as usize]);
            let before = fill(l, 0x11);
            let mut o = before.clone();
            let mut hs = AnyHash::new(a);
            hs.update(&m);
            let r = call(|| hs.finish_into(&mut o));
            expect(c, l != a.size(), "write_digest", || format!("{} output length {l} message {}", a.name(), show(&m)), r, &[(&o, &before)]);
            if l == a.size() { c.eq("digest", &o, &hash(a, &m), || a.name().to_string()); }
        }).grain(8),
        fam("hkdf-extract", "4 hashes x output lengths 0..=300 and multiples of 256 above x salt/input lengths (0, 1, block, block + 1)", 4 * 305 * 4, |i, c| {
            let a = ALGS[(i % 4) as usize];
            let l = (i / 16) as usize;
            let l = if l > 300 { [a.size() + 256, 65536, 65536 + a.size(), 512][l - 301] } else { l };
            let sl = [0usize, 1, a.block(), a.block() + 1];
            let (salt, ikm) = (fill(sl[(i / 4 % 4) as usize], 1), fill(sl[(i / 4 % 4 + 1) as usize % 4], 2));
            let before = fill(l, 0x22);
            let mut o = before.clone();
            let r = call(|| imp::hkdf_extract(a, &salt, &ikm, &mut o));
            expect(c, l != a.size(), "hkdf::extract", || format!("{} prk length {l} salt {} ikm {}", a.name(), show(&salt), show(&ikm)), r, &[(&o, &before)]);
            if l == a.size() { c.eq("prk", &o, &rhmac(a, &salt, &ikm), || a.name().to_string()); }
        }).grain(8),
        fam("hkdf-expand", "4 hashes x prk lengths 0..=digest+3 and 130..140 x output lengths 0..=2 digests+1 and every boundary at 255 digests and above (to 65536 digests)", 4 * 80, move |i, c| {
            let a = ALGS[(i % 4) as usize];
            let pl = (i / 4) as usize;
            let pl = if pl > a.size() + 3 { 130 + (pl - a.size() - 4) % 11 } else { pl };
            let prk = fill(pl, 3);
            for l in okm_lens(a.size()) {
                let bad = pl < a.size() || l > 255 * a.size();
                if !bad && l > 300 && pl > a.size() { continue }
                if l > 1000 && !bad && pl != a.size() { continue }
                let before = fill(l, 0x33);
                let mut o = before.clone();
                let r = call(|| imp::hkdf_expand(a, &prk, b"info", &mut o));
                expect(c, bad, "hkdf::expand", || format!("{} prk length {pl} output length {l}", a.name()), r, &[(&o, &before)]);
            }
        }),
        fam("key-lengths", "AES-128/192/256, the four AEADs, X25519 and Ed25519 key generation: every key length 0..=600 and +-256 aliases", 9 * 601, |i, c| {
            let l = (i / 9) as usize;
            let k = fill(l, 4);
            match i % 9 {
                j @ 0..=2 => { let n = [16, 24, 32][j as usize]; let r = call(|| { mk_aes(n, &k); }); expect(c, l != n, "Aes::new", || format!("AES-{} key length {l}", n * 8), r, &[]) }
                j @ 3..=6 => { let al = AEADS[j as usize - 3]; let r = call(|| { al.new(&k); }); expect(c, l != al.key_len(), "AeadCipher::new", || format!("{} key length {l}", al.name()), r, &[]) }
                7 => { let r = call(|| { x::gen_pk(&k); }); expect(c, l != 32, "curve25519::gen_pk", || format!("secret key length {l}"), r, &[]) }
                _ => { let r = call(|| { ed::gen_pk(&k); }); expect(c, l != 32, "ed25519::gen_pk", || format!("secret key length {l}"), r, &[]) }
            }
        }).grain(16),
        fam("dh-lengths", "every public-key length 0..=80 x secret-key length 0..=80, and 32 x 0..=600", 81 * 81 + 1202, |i, c| {
            let (a, b) = if i < 6561 { ((i % 81) as usize, (i / 81) as usize) } else if i < 6561 + 601 { (32, (i - 6561) as usize) } else { ((i - 6561 - 601) as usize, 32) };
            let (p, s) = (fill(a, 5), fill(b, 6));
            let r = call(|| { x::dh(&p, &s); });
            expect(c, a != 32 || b != 32, "curve25519::dh", || format!("public key length {a} secret key length {b}"), r, &[]);
        }).grain(16),
        fam("ed25519-lengths", "sign: secret-key length 0..=600 x message length 0, 1, 33; verify: key length 0..=100 x signature length 0..=100, 32 x 0..=600 and 0..=600 x 64", 601 * 3 + 101 * 101 + 1202, |i, c| {
            if i < 1803 {
                let (l, m) = ((i / 3) as usize, fill([0, 1, 33][(i % 3) as usize], 9));
                let k = fill(l, 7);
                let r = call(|| { ed::sign(&m, &k); });
                return expect(c, l != 32, "ed25519::sign", || format!("secret key length {l} message length {}", m.len()), r, &[]);
            }
            let i = i - 1803;
            let (p, s) = if i < 10201 { ((i % 101) as usize, (i / 101) as usize) } else if i < 10201 + 601 { (32, (i - 10201) as usize) } else { ((i - 10201 - 601) as usize, 64) };
            let k = curve::ed_key(&[3; 32]);
            let mut pk = k.pk.to_vec();
            pk.resize(p, 0);
            let mut sig = curve::ed_sign(&k, b"m").to_vec();
            sig.resize(s, 0);
            let mut got = None;
            let r = call(|| { got = Some(ed::verify(b"m", &sig, &pk)) });
            expect(c, p != 32, "ed25519::verify", || format!("public key length {p} signature length {s}"), r, &[]);
            if let Some(g) = got { if p == 32 && g != (s == 64) { c.fail(|| format!("verify returned {g} for signature length {s}")) } }
        }).grain(16),
        fam("stream-new", "ChaCha20 stream: key length 0..=100 x nonce length 0..=40, and 0..=600 x 12 and 32 x 0..=600", 101 * 41 + 1202, |i, c| {
            let (k, n) = if i < 4141 { ((i % 101) as usize, (i / 101) as usize) } else if i < 4141 + 601 { ((i - 4141) as usize, 12) } else { (32, (i - 4141 - 601) as usize) };
            let (kb, nb) = (fill(k, 1), fill(n, 2));
            let r = call(|| { Stream::new(&kb, &nb); });
            expect(c, k != 32 || n != 12, "Stream::new", || format!("key length {k} nonce length {n}"), r, &[]);
        }).grain(16),
        fam("stream-buffers", format!("ChaCha20 stream encrypt and decrypt: input length x output length 0..={g} from 4 stream positions; afterwards the stream must still be where it was"), 8 * (g + 1) * (g + 1), move |i, c| {
            let (dec, pos) = (i % 2 == 1, [0usize, 1, 63, 64][(i / 2 % 4) as usize]);
            let (a, b) = ((i / 8 % (g + 1)) as usize, (i / 8 / (g + 1)) as usize);
            let (key, n) = (fill(32, 1), fill(12, 2));
            let mut s = Stream::new(&key, &n);
            for _ in 0..pos { s.next(); }
            let m = fill(a, 8);
            let before = fill(b, 0x44);
            let mut o = before.clone();
            let r = call(|| if dec { s.decrypt(&m, &mut o) } else { s.encrypt(&m, &mut o) });
            let bad = a != b;
            expect(c, bad, if dec { "Stream::decrypt" } else { "Stream::encrypt" }, || format!("at {pos}: input length {a} output length {b}"), r, &[(&o, &before)]);
            // the object goes on as if the refused call had not happened
            let at = pos + if bad { 0 } else { a };
            let rest: Vec<u8> = s.by_ref().take(70).collect();
            c.eq("keystream after the call", &rest, &chacha_stream(&key, &n, at + 70)[at..], || format!("stream at {pos}, input length {a} output length {b}"));
        }).grain(32),
        fam("aead-buffers", format!("4 AEADs, encrypt and decrypt (right tag, wrong tag): input length x output length 0..={g}"), 12 * (g + 1) * (g + 1), move |i, c| {
            let (al, md) = (AEADS[(i % 4) as usize], i / 4 % 3);
            let (a, b) = ((i / 12 % (g + 1)) as usize, (i / 12 / (g + 1)) as usize);
            aead_case(c, al, md, a, b, 12, 5, 16);
        }).grain(32),
        fam("aead-nonce", "4 AEADs, encrypt and decrypt (right tag, wrong tag): nonce length 0..=600 x message length 0, 20, 64", 12 * 601 * 3, |i, c| {
            let (al, md) = (AEADS[(i % 4) as usize], i / 4 % 3);
            let l = [0usize, 20, 64][(i / 12 % 3) as usize];
            aead_case(c, al, md, l, l, (i / 36) as usize, 3, 16);
        }).grain(32),
        fam("aead-tag-lengths", "4 AEADs decrypt: tag length 0..=300 (prefix or extension of the right tag) x message length 0, 1, 33, with matching and mismatching output length: a wrong length is a refusal, not a panic", 4 * 301 * 6, |i, c| {
            let al = AEADS[(i % 4) as usize];
            let l = [0usize, 1, 33][(i / 4 % 3) as usize];
            let ol = if i / 12 % 2 == 0 { l } else { l + 1 };
            aead_case(c, al, 1, l, ol, 12, 7, (i / 24) as usize);
        }).grain(32),
        fam("aead-long-mismatch", "4 AEADs, encrypt and decrypt: output longer or shorter than the input by multiples of 16, 64, 256, 65536", 12 * 40, |i, c| {
            let (al, md) = (AEADS[(i % 4) as usize], i / 4 % 3);
            let j = (i / 12) as usize;
            let d = [1usize, 15, 16, 17, 64, 128, 256, 512, 65536, 65537][j % 10];
            let l = [16usize, 100][j / 20];
            let (a, b) = if j / 10 % 2 == 0 { (l, l + d) } else { (l + d, l) };
            aead_case(c, al, md, a, b, 12, 5, 16);
        }),
        fam("total-functions", "functions without preconditions (hash and HMAC updates, HMAC key and tag lengths, verify_16, one-call wrappers): lengths 0..=600 never panic", 601 * 4, |i, c| {
            let (a, l) = (ALGS[(i % 4) as usize], (i / 4) as usize);
            let b = fill(l, 1);
            let r = call(|| { imp::digest_wrapper(a, &b); imp::digest(a, &[&b, &b]); imp::hmac(a, &b, &[&b]); imp::hmac(a, b"k", &[&b, &b]); imp::hmac_wrapper(a, &b, b"m"); imp::hmac_verify(a, &b, b"m", &b); imp::hmac_verify(a, b"", &b, &[]); util::verify_16(&[1; 16], &b); });
            expect(c, false, "hash, hmac, verify_16", || format!("{} lengths {l}", a.name()), r, &[]);
        }).grain(8),
    ];
    v.push(fam("huge-lengths", "58 arguments with a required length, given that length plus 2^24, 2^32, 2^33 or 2^36 bytes (address space that costs no memory; outputs may only be touched in their first page)", 58 * 4, |i, c| {
        let d = [1usize << 24, 1 << 32, 1 << 33, 1 << 36][(i % 4) as usize];
        let j = (i / 4) as usize;
        let head = fill(64, 8);
        let long = |n: usize| Long::new(n + d, &head);
        let gate = |n: usize| Long::gated(n + d, 1, 0x5b);
        macro_rules! need { ($e:expr) => { match $e { Some(x) => x, None => { c.count("address space refused", 1); return } } } }
        let say = |w: &str| format!("{w}: required length plus {d}");
        let key = |al: Aead| al.new(&fill(al.key_len(), 8));
        let m = fill(40, 9);
        let short_before = fill(40, 0x31);
        let mut short = short_before.clone();
        let page = vec![0x5bu8; 4096];
        let mut page_now: Option<Vec<u8>> = None;
        let (what, r) = match j {
            0..=2 => { let n = [16, 24, 32][j]; let k = need!(long(n)); ("AES key", call(|| { mk_aes(n, k.get()); })) }
            3..=6 => { let al = AEADS[j - 3]; let k = need!(long(al.key_len())); ("AEAD key", call(|| { al.new(k.get()); })) }
            7 => { let k = need!(long(32)); ("curve25519::gen_pk", call(|| { x::gen_pk(k.get()); })) }
            8 => { let k = need!(long(32)); ("ed25519::gen_pk", call(|| { ed::gen_pk(k.get()); })) }
            9 => { let k = need!(long(32)); ("dh public key", call(|| { x::dh(k.get(), &head[..32]); })) }
            10 => { let k = need!(long(32)); ("dh secret key", call(|| { x::dh(&head[..32], k.get()); })) }
            11 => { let k = need!(long(32)); ("sign secret key", call(|| { ed::sign(&m, k.get()); })) }
            12 => { let kp = curve::ed_key(&[3; 32]); let sig = curve::ed_sign(&kp, &m); let k = need!(Long::new(32 + d, &kp.pk)); ("verify public key", call(|| { ed::verify(&m, &sig, k.get()); })) }
            13 => { let k = need!(long(32)); ("stream key", call(|| { Stream::new(k.get(), &head[..12]); })) }
            14 => { let k = need!(long(12)); ("stream nonce", call(|| { Stream::new(&head[..32], k.get()); })) }
            15..=18 => { let o = key(AEADS[j - 15]); let n = need!(long(12)); ("encrypt nonce", call(|| { o.enc(&m, n.get(), b"x", &mut short); })) }
            19..=22 => { let al = AEADS[j - 19]; let (o, n) = (key(al), need!(long(12))); let t = al.reference(&fill(al.key_len(), 8)).tag(&head[..12], b"x", &m); ("decrypt nonce", call(|| { o.dec(&m, n.get(), b"x", &t, &mut short); })) }
            23..=26 => { let o = key(AEADS[j - 23]); let mut g = need!(gate(40)); let r = call(|| { o.enc(&m, &head[..12], b"x", g.get_mut()); }); page_now = Some(g.get()[..4096].to_vec()); ("encrypt output", r) }
            27..=30 => { let o = key(AEADS[j - 27]); let g = need!(long(40)); ("encrypt input", call(|| { o.enc(g.get(), &head[..12], b"x", &mut short); })) }
            31..=34 => { let al = AEADS[j - 31]; let o = key(al); let mut g = need!(gate(40)); let t = al.reference(&fill(al.key_len(), 8)).tag(&head[..12], b"x", &m); let r = call(|| { o.dec(&m, &head[..12], b"x", &t, g.get_mut()); }); page_now = Some(g.get()[..4096].to_vec()); ("decrypt output", r) }
            35..=38 => { let o = key(AEADS[j - 35]); let g = need!(long(40)); ("decrypt input", call(|| { o.dec(g.get(), &head[..12], b"x", &[7; 16], &mut short); })) }
            39 | 40 => { let mut s = Stream::new(&head[..32], &head[..12]); let mut g = need!(gate(40)); let r = call(|| if j == 39 { s.encrypt(&m, g.get_mut()) } else { s.decrypt(&m, g.get_mut()) }); page_now = Some(g.get()[..4096].to_vec()); ("stream output", r) }
            41 | 42 => { let mut s = Stream::new(&head[..32], &head[..12]); let g = need!(long(40)); ("stream input", call(|| if j == 41 { s.encrypt(g.get(), &mut short) } else { s.decrypt(g.get(), &mut short) })) }
            43..=46 => { let a = ALGS[j - 43]; let mut g = need!(gate(a.size())); let r = call(|| AnyHash::new(a).finish_into(g.get_mut())); page_now = Some(g.get()[..4096].to_vec()); ("digest output", r) }
            47..=50 => { let a = ALGS[j - 47]; let mut g = need!(gate(a.size())); let r = call(|| imp::hkdf_extract(a, b"salt", b"ikm", g.get_mut())); page_now = Some(g.get()[..4096].to_vec()); ("extract output", r) }
            51..=54 => { let a = ALGS[j - 51]; let mut g = need!(gate(10)); let r = call(|| imp::hkdf_expand(a, &fill(64, 1), b"info", g.get_mut())); page_now = Some(g.get()[..4096].to_vec()); ("expand output (10 bytes)", r) }
            _ => { let a = ALGS[j - 55]; let mut g = need!(gate(0)); let r = call(|| imp::hkdf_expand(a, &fill(64, 1), b"info", g.get_mut())); page_now = Some(g.get()[..4096].to_vec()); ("expand output (0 bytes)", r) }
        };
        match page_now {
            Some(now) => expect(c, true, what, || say(&format!("{what}, case {j}")), r, &[(&now, &page)]),
            None => expect(c, true, what, || say(&format!("{what}, case {j}")), r, &[(&short, &short_before)]),
        }
    }));
    v.push(fam("aead-data-lengths", format!("4 AEADs x data lengths 0..={} and 2^16, 2^20 +- 1 x message lengths 0, 1, 63: accepted", if t { 4000 } else { 800 }), 12 * (if t { 4000 } else { 800 } + 7), move |i, c| {
        let m = if t { 4000 } else { 800 };
        let j = i / 12;
        let dl = if j <= m { j as usize } else { [65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1][(j - m - 1) as usize] };
        let l = [0usize, 1, 63][(i / 4 % 3) as usize];
        let al = AEADS[(i % 4) as usize];
        aead_case(c, al, 0, l, l, 12, dl, 16);
        aead_case(c, al, 1, l, l, 12, dl, 16);
    }).grain(16));
    v
}
/// md: 0 encrypt, 1 decrypt with the right tag, 2 decrypt with a wrong tag.
fn aead_case(c: &mut Ctx, al: Aead, md: u64, il: usize, ol: usize, nl: usize, dl: usize, tl: usize) {
    let key = fill(al.key_len(), 0x31);
    let r = { static R: OnceLock<Vec<RefAead>> = OnceLock::new(); &R.get_or_init(|| AEADS.iter().map(|a| a.reference(&fill(a.key_len(), 0x31))).collect())[AEADS.iter().position(|&a| a == al).unwrap()] };
    let o = al.new(&key);
    let (n, a, m) = (fill(nl, 0x41), fill(dl, 0x51), fill(il, 0x61));
    let before = fill(ol, 0x71);
    let mut out = before.clone();
    let bad = nl != 12 || il != ol;
    let d = || format!("{} input length {il} output length {ol} nonce length {nl} data length {dl} tag length {tl} {}", al.name(), ["encrypt", "decrypt", "decrypt with a wrong tag"][md as usize]);
    let n12 = { let mut x = n.clone(); x.resize(12, 0); x };
    if md == 0 {
        let mut tag = [0; 16];
        let res = call(|| tag = o.enc(&m, &n, &a, &mut out));
        let ok = res.is_ok();
        expect(c, bad, "encrypt", d, res, &[(&out, &before)]);
        if ok && !bad { let (ct, tg) = r.seal(&n, &a, &m); c.eq("ciphertext", &out, &ct, d); c.eq("tag", &tag, &tg, d); }
    } else {
        let mut tag = r.tag(&n12, &a, &m).to_vec();
        if md == 2 { tag[3] ^= 1 }
        tag.resize(tl, 0);
        let mut got = false;
        let res = call(|| got = o.dec(&m, &n, &a, &tag, &mut out));
        let ok = res.is_ok();
        expect(c, bad, "decrypt", d, res, &[(&out, &before)]);
        if ok && !bad {
            let want = md == 1 && tl == 16;
            if got != want { c.fail(|| format!("decrypt returned {got}\n  {}", d())) }
            c.eq("decrypt output", &out, &if want { r.crypt(&n, &m) } else { before.clone() }, d);
        }
    }
    // the same object still works after a refusal
    if bad {
        let m = fill(37, 0x13);
        let mut out = vec![0; 37];
        if let Some(tag) = c.must("encrypt after a refused call", d, || o.enc(&m, &fill(12, 9), b"aad", &mut out)) {
            let (ct, tg) = { static W: OnceLock<Vec<(Vec<u8>, [u8; 16])>> = OnceLock::new(); &W.get_or_init(|| AEADS.iter().map(|a| a.reference(&fill(a.key_len(), 0x31)).seal(&fill(12, 9), b"aad", &fill(37, 0x13))).collect())[AEADS.iter().position(|&a| a == al).unwrap()] };
            c.eq("ciphertext after a refused call", &out, ct, d);
            c.eq("tag after a refused call", &tag, tg, d);
        }
    }
}

// ---------------------------------------------------------------- C23
fn check_v(c: &mut Ctx, a: &[u8; 16], b: &[u8]) {
    let d = || format!("verify_16({}, {})", hex(a), show(b));
    if let Some(g) = c.must("verify_16", d, || util::verify_16(a, b)) {
        let want = a[..] == *b;
        if g != want { c.fail(|| format!("returned {g}, expected {want}: {}", d())) }
        c.count(if want { "equal" } else { "different" }, 1);
        c.trace(1, h(&[a, b"|", &b[..b.len().min(400)], &b.len().to_le_bytes()]), g as u64);
        c.note(|| format!("{} -> {want}", d()));
    }
}
fn vbase(i: u64) -> [u8; 16] { match i { 0 => [0; 16], 1 => [0xff; 16], 2 => [0x80; 16], 3 => *b"abcdefghijklmnop", i => mixa(8000 + i) } }
pub fn c23(t: bool) -> Vec<Family> {
    let nb = if t { 24u64 } else { 6 };
    vec![
        fam("bits", format!("{nb} values x no, every one- and every two-bit difference"), nb * (1 + 128 + 8128), move |i, c| {
            let a = vbase(i % nb);
            let mut b = a;
            let j = i / nb;
            if j >= 129 { let (x, y) = tri(j - 129); b[x / 8] ^= 1 << (x % 8); b[y / 8] ^= 1 << (y % 8) } else if j >= 1 { b[(j - 1) as usize / 8] ^= 1 << ((j - 1) % 8) }
            check_v(c, &a, &b);
        }).grain(256),
        fam("byte-values", "all 65536 pairs of byte values at every one of the 16 positions, 2 surroundings", 2 * 16 * 65536, |i, c| {
            let (mut a, p) = (if i % 2 == 0 { [0; 16] } else { vbase(5) }, (i / 2 % 16) as usize);
            let mut b = a;
            a[p] = (i / 32) as u8;
            b[p] = (i / 32 >> 8) as u8;
            check_v(c, &a, &b);
        }).grain(4096),
        fam("equal-differences", "the same XOR difference, or opposite arithmetic differences, at every set of 2 positions and at every run of positions, all 255 differences (would cancel in a sum or an XOR fold)", 255 * (240 + 136), |i, c| {
            let a = vbase(4);
            let d = (i % 255 + 1) as u8;
            let j = (i / 255) as usize;
            let mut b = a;
            if j < 240 { let (x, y) = (j / 15, j % 15); let y = if y >= x { y + 1 } else { y }; if x < y { b[x] ^= d; b[y] ^= d } else { b[x] = b[x].wrapping_add(d); b[y] = b[y].wrapping_sub(d) } }
            else { let (x, y) = tri17(j - 240); for k in x..y { b[k] ^= d } }
            check_v(c, &a, &b);
        }).grain(512),
        fam("permutations", "every transposition and rotation of the 16 bytes, every mask of differing positions (2^16)", 120 + 16 + 65536, |i, c| {
            let a = vbase(3);
            let mut b = a;
            if i < 120 { let (x, y) = tri(i); b.swap(x, y) } else if i < 136 { b.rotate_left((i - 120) as usize) } else { for k in 0..16 { if (i - 136) >> k & 1 == 1 { b[k] ^= if k % 2 == 0 { 0x80 } else { 1 } } } }
            check_v(c, &a, &b);
        }).grain(512),
        fam("lengths", "every length 0..=1000 and 2^8, 2^16, 2^24 multiples + 16: prefix, zero extension, repetition of the right value", 1008 * 3, |i, c| {
            let a = if i % 3 == 1 { [0; 16] } else { vbase(5) };
            let l = (i / 3) as usize;
            let l = if l > 1000 { [65536, 65552, 65535, 1 << 24, (1 << 24) + 16, 131088, 65536 * 3 + 16][l - 1001] } else { l };
            let b: Vec<u8> = match i % 3 { 2 => (0..l).map(|k| a[k % 16]).collect(), _ => { let mut v = a.to_vec(); v.resize(l, 0); v } };
            check_v(c, &a, &b);
        }).grain(16),
        fam("huge-lengths", "lengths 2^32 + 16, 2^32, 2^32 - 16, 2^33 + 16, 2^36 + 16 (untouched zero pages)", 5, |i, c| {
            let l = [(1usize << 32) + 16, 1 << 32, (1 << 32) - 16, (1 << 33) + 16, (1 << 36) + 16][i as usize];
            let Some(z) = Zeros::new(l) else { c.count("address space refused", 1); return };
            check_v(c, &[0; 16], z.slice());
        }),
    ]
}
fn tri(i: u64) -> (usize, usize) { let mut b = 1u64; while b * (b + 1) / 2 <= i { b += 1 } ((i - b * (b - 1) / 2) as usize, b as usize) }
fn tri17(i: usize) -> (usize, usize) { let (a, b) = tri(i as u64); (a, b) }
/// Untouched zero pages.
pub struct Zeros(*mut u8, usize);
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn munmap(a: *mut u8, l: usize) -> i32; }
impl Zeros {
    pub fn new(l: usize) -> Option<Self> { let p = unsafe { mmap(std::ptr::null_mut(), l, 1, 0x4022, -1, 0) }; if p as isize == -1 { None } else { Some(Zeros(p, l)) } }
    pub fn slice(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.0, self.1) } }
}
impl Drop for Zeros { fn drop(&mut self) { unsafe { munmap(self.0, self.1); } } }

// ---------------------------------------------------------------- C18
/// What one step of a history does. Every step's own result is compared at once with the value the
/// specification gives for its arguments and its object's own past; the histories are all sequences.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Enc(u8, u8), Dec(u8, u8), BadTag(u8), BadLen(u8), BadNonce(u8), Renew(u8),
    Next(u8), Sx(u8, u8), Sbad(u8),
    Upd(u8, u8), Fin(u8), HmacUpd(u8, u8), HmacFin(u8),
    Block(u8), Kdf(u8), KdfBad, Hver(u8), Dh(u8), DhBad, Sign(u8), Ver(u8), EdPk(u8),
}
use Op::*;
const MSGS: [usize; 4] = [0, 20, 64, 133];
struct Tab { seal: Vec<Vec<(Vec<u8>, [u8; 16])>>, ks: [Vec<u8>; 2], dh: [[u8; 32]; 2], ed: [curve::EdKey; 2], sig: [[u8; 64]; 2], okm: [Vec<u8>; 2], aes: [[u8; 16]; 3], dig: std::sync::Mutex<std::collections::HashMap<u64, Vec<u8>>> }
fn wkey(i: u8, n: usize) -> Vec<u8> { mix(9000 + i as u64, n) }
/// Objects: 0, 1: AES-128-GCM under two keys; 2: AES-256-GCM; 3, 4: ChaCha20-Poly1305 under two keys.
const WA: [(Aead, u8); 5] = [(Aead::G128, 0), (Aead::G128, 1), (Aead::G256, 0), (Aead::Cp, 0), (Aead::Cp, 1)];
fn tab() -> &'static Tab {
    static T: OnceLock<Tab> = OnceLock::new();
    T.get_or_init(|| {
        let ed = [curve::ed_key(&mixa(9100)), curve::ed_key(&mixa(9101))];
        Tab {
            seal: WA.iter().map(|(al, k)| { let r = al.reference(&wkey(*k, al.key_len())); (0..4).map(|m| r.seal(&fill(12, m as u8), &fill(m * 7, 1), &fill(MSGS[m], 2))).collect() }).collect(),
            ks: [chacha_stream(&wkey(0, 32), &[1; 12], 4096), chacha_stream(&wkey(1, 32), &[1; 12], 4096)],
            dh: [curve::x25519(&mixa(9200), &mixa(9210)), curve::x25519(&mixa(9201), &mixa(9211))],
            sig: [curve::ed_sign(&ed[0], b"first"), curve::ed_sign(&ed[1], b"second message")],
            okm: [crate::refs::sha2::hkdf_expand(Alg::S256, &wkey(5, 32), b"i0", 70), crate::refs::sha2::hkdf_expand(Alg::S512, &wkey(6, 64), b"i1", 131)],
            aes: [Aes::new(&wkey(0, 16)).enc(&[1; 16]), Aes::new(&wkey(0, 24)).enc(&[2; 16]), Aes::new(&wkey(0, 32)).enc(&[3; 16])],
            ed, dig: Default::default(),
        }
    })
}
fn memo(key: u64, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> { let t = &tab().dig; if let Some(v) = t.lock().unwrap().get(&key) { return v.clone() } let v = f(); t.lock().unwrap().insert(key, v.clone()); v }
struct World { aead: Vec<AnyAead>, st: [Stream; 2], pos: [usize; 2], hs: [Option<AnyHash>; 2], fed: [Vec<u8>; 2], hm: [Option<HmObj>; 2], hfed: [Vec<u8>; 2], step: u8 }
enum HmObj { A(crypto_pure::hmac::Hmac<crypto_pure::sha2::Sha256>), B(crypto_pure::hmac::Hmac<crypto_pure::sha2::Sha512>) }
fn new_hm(i: u8) -> HmObj { if i == 0 { HmObj::A(crypto_pure::hmac::Hmac::new(b"key zero")) } else { HmObj::B(crypto_pure::hmac::Hmac::new(&[7; 200])) } }
impl World {
    fn new() -> World {
        World { aead: WA.iter().map(|(al, k)| al.new(&wkey(*k, al.key_len()))).collect(), st: [Stream::new(&wkey(0, 32), &[1; 12]), Stream::new(&wkey(1, 32), &[1; 12])], pos: [0; 2], hs: [Some(AnyHash::new(Alg::S256)), Some(AnyHash::new(Alg::S512))], fed: Default::default(), hm: [Some(new_hm(0)), Some(new_hm(1))], hfed: Default::default(), step: 0 }
    }
    fn state(&self) -> u64 { h(&[&[self.pos[0] as u8, (self.pos[0] >> 8) as u8, self.pos[1] as u8, (self.pos[1] >> 8) as u8], &self.fed[0], b"|", &self.fed[1], b"|", &self.hfed[0], b"|", &self.hfed[1]]) }
    /// Runs one step; Err describes a deviation.
    fn run(&mut self, op: Op) -> Result<(), String> {
        let t = tab();
        self.step = self.step.wrapping_add(1);
        let pre = |n: usize, s: u8| -> Vec<u8> { fill(n, s.wrapping_mul(91) ^ 0xd7) };
        let step = self.step;
        let eq = |what: &str, got: &[u8], want: &[u8]| if got == want { Ok(()) } else { Err(format!("{what}: got {} expected {}", show(got), show(want))) };
        match op {
            Enc(o, m) => {
                let (ct, tg) = &t.seal[o as usize][m as usize];
                let mut out = pre(ct.len(), step);
                let tag = call(|| self.aead[o as usize].enc(&fill(ct.len(), 2), &fill(12, m), &fill(m as usize * 7, 1), &mut out))?;
                eq("ciphertext", &out, ct)?; eq("tag", &tag, tg)
            }
            Dec(o, m) => {
                let (ct, tg) = &t.seal[o as usize][m as usize];
                let mut out = pre(ct.len(), step);
                let ok = call(|| self.aead[o as usize].dec(ct, &fill(12, m), &fill(m as usize * 7, 1), tg, &mut out))?;
                if !ok { return Err("decrypt refused a right tag".into()) }
                eq("message", &out, &fill(ct.len(), 2))
            }
            BadTag(o) => {
                let (ct, tg) = &t.seal[o as usize][2];
                let mut tg = *tg; tg[15] ^= 0x40;
                let b = pre(ct.len(), step);
                let mut out = b.clone();
                let ok = call(|| self.aead[o as usize].dec(ct, &fill(12, 2), &fill(14, 1), &tg, &mut out))?;
                if ok { return Err("decrypt accepted a wrong tag".into()) }
                eq("output of a refused decrypt", &out, &b)
            }
            BadLen(o) => {
                let b = pre(21, step);
                let mut out = b.clone();
                if call(|| self.aead[o as usize].enc(&[9; 20], &[1; 12], b"", &mut out)).is_ok() { return Err("mismatched buffer lengths accepted".into()) }
                if call(|| self.aead[o as usize].dec(&[9; 20], &[1; 12], b"", &[0; 16], &mut out)).is_ok() { return Err("mismatched buffer lengths accepted by decrypt".into()) }
                eq("output of a refused call", &out, &b)
            }
            BadNonce(o) => {
                let b = pre(20, step);
                let mut out = b.clone();
                if call(|| self.aead[o as usize].enc(&[9; 20], &[1; 11], b"", &mut out)).is_ok() { return Err("wrong nonce length accepted".into()) }
                eq("output of a refused call", &out, &b)
            }
            Renew(o) => { let (al, k) = WA[o as usize]; self.aead[o as usize] = call(|| al.new(&wkey(k, al.key_len())))?; Ok(()) }
            Next(s) => { let p = &mut self.pos[s as usize]; let b = call(|| self.st[s as usize].next())?; *p += 1; eq("keystream byte", &[b.unwrap_or(0)], &t.ks[s as usize][*p - 1..*p]) }
            Sx(s, m) => {
                let n = [5usize, 59, 64, 130][m as usize];
                let p = self.pos[s as usize];
                let mut out = pre(n, step);
                let inp = fill(n, step);
                call(|| if m % 2 == 0 { self.st[s as usize].encrypt(&inp, &mut out) } else { self.st[s as usize].decrypt(&inp, &mut out) })?;
                self.pos[s as usize] += n;
                let want: Vec<u8> = inp.iter().zip(&t.ks[s as usize][p..]).map(|(a, b)| a ^ b).collect();
                eq("stream output", &out, &want)
            }
            Sbad(s) => { let b = pre(70, step); let mut out = b.clone(); if call(|| self.st[s as usize].encrypt(&[1; 69], &mut out)).is_ok() { return Err("mismatched lengths accepted".into()) } eq("output of a refused call", &out, &b) }
            Upd(o, m) => { let x = fill([1usize, 64, 150][m as usize], step); call(|| self.hs[o as usize].as_mut().unwrap().update(&x))?; self.fed[o as usize].extend_from_slice(&x); Ok(()) }
            Fin(o) => {
                let a = [Alg::S256, Alg::S512][o as usize];
                let hs = self.hs[o as usize].take().unwrap();
                let g = call(|| hs.finish())?;
                let f = std::mem::take(&mut self.fed[o as usize]);
                self.hs[o as usize] = Some(AnyHash::new(a));
                eq("digest", &g, &memo(h(&[&[o], &f]), || hash(a, &f)))
            }
            HmacUpd(o, m) => { let x = fill([1usize, 64, 150][m as usize], step); call(|| match self.hm[o as usize].as_mut().unwrap() { HmObj::A(q) => q.update(&x), HmObj::B(q) => q.update(&x) })?; self.hfed[o as usize].extend_from_slice(&x); Ok(()) }
            HmacFin(o) => {
                let g = match self.hm[o as usize].take().unwrap() { HmObj::A(q) => call(|| q.tag().to_vec())?, HmObj::B(q) => call(|| q.tag().to_vec())? };
                let f = std::mem::take(&mut self.hfed[o as usize]);
                self.hm[o as usize] = Some(new_hm(o));
                eq("HMAC tag", &g, &memo(h(&[&[o + 2], &f]), || if o == 0 { rhmac(Alg::S256, b"key zero", &f) } else { rhmac(Alg::S512, &[7; 200], &f) }))
            }
            Block(i) => { let n = [16, 24, 32][i as usize]; let g = call(|| imp::aes(&wkey(0, n), &[i + 1; 16]))?; eq("AES block", &g, &t.aes[i as usize]) }
            Kdf(i) => {
                let mut out = pre(t.okm[i as usize].len(), step);
                if i == 0 { call(|| imp::hkdf_expand(Alg::S256, &wkey(5, 32), b"i0", &mut out))? } else { call(|| imp::hkdf_expand(Alg::S512, &wkey(6, 64), b"i1", &mut out))? }
                eq("HKDF output", &out, &t.okm[i as usize])
            }
            KdfBad => { let b = pre(256 * 32, step); let mut out = b.clone(); if call(|| imp::hkdf_expand(Alg::S256, &wkey(5, 32), b"i0", &mut out)).is_ok() { return Err("HKDF beyond 255 digests accepted".into()) } eq("output of a refused expand", &out, &b) }
            Hver(i) => { let tg = memo(h(&[b"hv"]), || rhmac(Alg::S256, b"kk", b"mm")); let mut tg = tg; if i == 1 { tg[31] ^= 1 } let g = call(|| imp::hmac_verify(Alg::S256, b"kk", b"mm", &tg))?; if g == (i == 0) { Ok(()) } else { Err(format!("hmac verify returned {g}")) } }
            Dh(i) => { let g = call(|| x::dh(&mixa::<32>(9210 + i as u64), &mixa::<32>(9200 + i as u64)))?; eq("X25519", &g, &t.dh[i as usize]) }
            DhBad => if call(|| x::dh(&[0; 31], &[1; 32])).is_ok() { Err("31-byte key accepted".into()) } else { Ok(()) },
            Sign(i) => { let g = call(|| ed::sign(if i == 0 { b"first" } else { b"second message" }, &mixa::<32>(9100 + i as u64)))?; eq("signature", &g, &t.sig[i as usize]) }
            Ver(i) => {
                // 0, 1: right; 2: wrong message; 3: undecodable key
                let (k, m): (usize, &[u8]) = match i { 1 => (1, b"second message"), 2 => (0, b"firsT"), _ => (0, b"first") };
                let mut pk = t.ed[k].pk;
                if i == 3 { pk = [2; 32]; pk[0] = 2; pk[31] = 0x7f }
                let want = i < 2;
                let g = call(|| ed::verify(m, &t.sig[k], &pk))?;
                if g == want { Ok(()) } else { Err(format!("verify returned {g}")) }
            }
            EdPk(i) => { let g = call(|| ed::gen_pk(&mixa::<32>(9100 + i as u64)))?; eq("Ed25519 public key", &g, &t.ed[i as usize].pk) }
        }
    }
}
fn histories(name: &str, ops: &'static [Op], depth: u32, what: &str) -> Family {
    let n = ops.len() as u64;
    fam(name, format!("every history of {depth} steps over {n} operations ({what}), then every object is checked once more"), n.pow(depth), move |i, c| {
        let seq: Vec<Op> = (0..depth).map(|d| ops[(i / n.pow(d) % n) as usize]).collect();
        play(c, &seq, true);
    }).grain(64)
}
fn play(c: &mut Ctx, seq: &[Op], finish: bool) {
    let mut w = World::new();
    for (k, &op) in seq.iter().enumerate() {
        if let Err(e) = w.run(op) { c.fail(|| format!("step {} {op:?}: {e}\n  history {:?}", k + 1, &seq[..=k])); return }
        c.state(h(&[&w.state().to_le_bytes(), format!("{op:?}").as_bytes()]));
    }
    if finish {
        for op in [Enc(0, 1), Enc(1, 2), Enc(3, 1), Next(0), Next(1), Fin(0), Fin(1), HmacFin(0), HmacFin(1)] {
            let s = w.state();
            if let Err(e) = w.run(op) { c.fail(|| format!("after the history, {op:?}: {e}\n  history {seq:?} (model state {s:016x})")); return }
        }
    }
    c.trace(seq.len() as u64 + if finish { 9 } else { 0 }, w.state() ^ h(&[format!("{seq:?}").as_bytes()]), w.state());
    c.note(|| format!("history {seq:?}: every step as specified"));
}
static ALPHA: [Op; 30] = [
    Enc(0, 1), Enc(0, 3), Dec(0, 2), BadTag(0), BadLen(0), Enc(1, 1), Dec(1, 3), Renew(0), Enc(2, 2), BadTag(2),
    Enc(3, 3), Dec(3, 1), BadTag(3), BadLen(3), BadNonce(3), Enc(4, 1), Next(0), Sx(0, 0), Sx(0, 3), Sbad(0), Sx(1, 1),
    Upd(0, 0), Upd(0, 2), Fin(0), Upd(1, 1), HmacUpd(0, 2), HmacFin(0), Block(0), Kdf(0), Hver(1),
];
static ALPHA_CURVE: [Op; 17] = [Dh(0), Dh(1), DhBad, Sign(0), Sign(1), Ver(0), Ver(1), Ver(2), Ver(3), EdPk(0), EdPk(1), Enc(0, 1), BadTag(3), Sx(0, 0), Upd(1, 2), Fin(1), Kdf(1)];
static ALPHA_AEAD: [Op; 12] = [Enc(0, 1), Enc(0, 2), Dec(0, 3), BadTag(0), BadLen(0), Enc(1, 1), Enc(3, 1), Enc(3, 2), Dec(3, 3), BadTag(3), BadNonce(3), Enc(4, 2)];
static ALPHA_STREAM: [Op; 12] = [Next(0), Sx(0, 0), Sx(0, 1), Sx(0, 2), Sx(0, 3), Sbad(0), Next(1), Sx(1, 1), Sx(1, 2), Sbad(1), Enc(3, 1), BadTag(3)];
static ALPHA_HASH: [Op; 12] = [Upd(0, 0), Upd(0, 1), Fin(0), Upd(1, 1), Upd(1, 2), Fin(1), HmacUpd(0, 0), HmacUpd(0, 2), HmacFin(0), HmacUpd(1, 1), Kdf(0), KdfBad];
pub fn c18(t: bool) -> Vec<Family> {
    let d = if t { 5 } else if super::light() { 3 } else { 4 };
    let many: &'static [(Op, u64)] = &[(Enc(0, 1), 70000), (Dec(0, 1), 70000), (BadTag(0), 70000), (BadLen(0), 3000), (Enc(3, 1), 70000), (Dec(3, 1), 70000), (BadTag(3), 70000), (Enc(2, 3), 70000), (Renew(0), 70000), (Block(0), 70000), (Block(2), 70000), (Kdf(0), 5000), (Hver(0), 20000), (Hver(1), 20000), (Dh(0), 3000), (Sign(0), 3000), (Ver(0), 3000), (Ver(2), 3000), (Ver(3), 3000), (EdPk(0), 3000), (DhBad, 3000), (KdfBad, 2000)];
    let mut v = vec![
        histories("mixed", &ALPHA, d, "GCM, ChaCha20-Poly1305, streams, hashes, HMAC, AES, HKDF on several objects; failed decryptions and refused calls included"),
        histories("aead-deep", &ALPHA_AEAD, d + 1, "two GCM and two ChaCha20-Poly1305 objects"),
        histories("stream-deep", &ALPHA_STREAM, d + 1, "two streams and an AEAD"),
        histories("hash-deep", &ALPHA_HASH, d + 1, "hash, HMAC and HKDF objects"),
        histories("curves", &ALPHA_CURVE, d - 1, "X25519 and Ed25519 calls, refused and failing ones included, between other operations"),
        fam("many-uses", "22 operations repeated 2000 to 70000 times on one object, with a full check of all others at the end", many.len() as u64, |i, c| {
            let (op, n) = many[i as usize];
            let mut w = World::new();
            for k in 0..n { if let Err(e) = w.run(op) { c.fail(|| format!("use {} of {op:?}: {e}", k + 1)); return } }
            for op in [Enc(0, 1), Dec(0, 2), Enc(1, 2), Enc(2, 1), Enc(3, 1), Enc(4, 2), Next(0), Next(1), Fin(0), Fin(1), HmacFin(0), HmacFin(1), Dh(1), Sign(1), Ver(1), Kdf(1)] {
                if let Err(e) = w.run(op) { c.fail(|| format!("after {n} uses of {:?}, {op:?}: {e}", many[i as usize].0)); return }
            }
            c.trace(n + 16, h(&[format!("{op:?}").as_bytes()]), w.state());
        }),
        fam("prefilled-buffers", "every operation with an output buffer x buffer contents all 256 byte fills: same result", 256, |i, c| {
            let p = i as u8;
            for (o, (al, k)) in WA.iter().enumerate() {
                let ob = al.new(&wkey(*k, al.key_len()));
                for m in 0..4usize {
                    let (ct, tg) = &tab().seal[o][m];
                    let mut out = vec![p; ct.len()];
                    let tag = ob.enc(&fill(ct.len(), 2), &fill(12, m as u8), &fill(m * 7, 1), &mut out);
                    c.eq("ciphertext", &out, ct, || format!("{} buffer filled with {p:02x}", al.name()));
                    c.eq("tag", &tag, tg, || format!("{} buffer filled with {p:02x}", al.name()));
                    let mut out = vec![p; ct.len()];
                    let ok = ob.dec(ct, &fill(12, m as u8), &fill(m * 7, 1), tg, &mut out);
                    if !ok { c.fail(|| format!("{} decrypt refused", al.name())) }
                    c.eq("message", &out, &fill(ct.len(), 2), || format!("{} buffer filled with {p:02x}", al.name()));
                    let mut bad = *tg; bad[0] ^= 1;
                    let mut out = vec![p; ct.len()];
                    if ob.dec(ct, &fill(12, m as u8), &fill(m * 7, 1), &bad, &mut out) { c.fail(|| format!("{} wrong tag accepted", al.name())) }
                    c.eq("refused output", &out, &vec![p; ct.len()], || format!("{} buffer filled with {p:02x}", al.name()));
                    c.trace(3, h(&[&[p, o as u8, m as u8]]), h(&[&tag]));
                }
            }
            for a in ALGS { let mut o = vec![p; a.size()]; let mut x = AnyHash::new(a); x.update(b"abc"); x.finish_into(&mut o); c.eq("digest", &o, &hash(a, b"abc"), || format!("buffer filled with {p:02x}"));
                let mut o = vec![p; a.size()]; imp::hkdf_extract(a, b"s", b"i", &mut o); c.eq("prk", &o, &rhmac(a, b"s", b"i"), || format!("buffer filled with {p:02x}"));
                for l in [1, a.size(), 2 * a.size() + 3] { let mut o = vec![p; l]; imp::hkdf_expand(a, &fill(a.size(), 3), b"i", &mut o); c.eq("okm", &o, &crate::refs::sha2::hkdf_expand(a, &fill(a.size(), 3), b"i", l), || format!("buffer filled with {p:02x}")); }
                c.trace(5, h(&[&[p, a as u8], b"h"]), 0);
            }
            let mut s = Stream::new(&wkey(0, 32), &[1; 12]);
            let mut o = vec![p; 200];
            s.encrypt(&[0; 200], &mut o);
            c.eq("stream", &o, &tab().ks[0][..200], || format!("buffer filled with {p:02x}"));
        }),
        fam("key-churn", "20000 objects created under different keys between two uses of a long-lived object of every AEAD and of every hash", 4, |i, c| {
            let al = AEADS[i as usize];
            let r = al.reference(&wkey(3, al.key_len()));
            let long = al.new(&wkey(3, al.key_len()));
            let (ct, tg) = r.seal(&[5; 12], b"data", &[6; 50]);
            for k in 0..20000u64 {
                let o = al.new(&mix(k, al.key_len()));
                let mut out = [0; 50];
                o.enc(&[1; 50], &[5; 12], b"data", &mut out);
                drop(o);
                let mut out = [k as u8; 50];
                let tag = long.enc(&[6; 50], &[5; 12], b"data", &mut out);
                if !c.eq("ciphertext", &out, &ct, || format!("{} after {k} other objects", al.name())) || !c.eq("tag", &tag, &tg, || format!("{} after {k} other objects", al.name())) { return }
                c.trace(3, h(&[&[i as u8], &k.to_le_bytes()]), 0);
            }
        }),
    ];
    v.extend(super::near::families(t));
    v
}
