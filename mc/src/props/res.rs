//! C25: no heap, and stack that does not depend on the lengths.
//! Every call is made with its buffers prepared beforehand; around it the allocations of the thread are
//! counted and the part of the stack that was written is measured.
use crate::engine::*;
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{self, HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{chacha20::Stream, curve25519, ed25519, hkdf, util};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::OnceLock;

thread_local! { static ALLOCS: Cell<u64> = const { Cell::new(0) }; }
struct Counting;
fn tick() { let _ = ALLOCS.try_with(|a| a.set(a.get() + 1)); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { tick(); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { tick(); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { tick(); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

/// How far below the caller the stack is watched.
const WATCH: usize = 1 << 20;
/// The stack an operation may use.
const CAP: usize = 64 << 10;
/// What a longer input may add to what the short ones use (spills, other memcpy routines).
const SLACK: usize = 2048;
const INK: u64 = 0xa7d3_91c5_6be8_f217;
#[inline(never)]
fn stack_pointer() -> usize { let s: usize; unsafe { std::arch::asm!("mov {}, rsp", out(reg) s, options(nomem, nostack, preserves_flags)) } s }
#[inline(never)]
fn paint(top: usize) { unsafe { let mut p = (top - WATCH) as *mut u64; while (p as usize) < stack_pointer() - 512 { p.write_volatile(INK); p = p.add(1) } } }
#[inline(never)]
fn written(top: usize) -> usize { unsafe { let mut p = (top - WATCH) as *const u64; while (p as usize) < stack_pointer() - 512 && p.read_volatile() == INK { p = p.add(1) } top - p as usize } }
#[inline(never)]
fn through(f: &mut dyn FnMut()) { f() }
/// Allocations during the call, and how deep the stack was written.
fn measure(f: &mut dyn FnMut()) -> (u64, usize) {
    let top = stack_pointer() & !15;
    paint(top);
    let a = ALLOCS.with(|a| a.get());
    through(f);
    let n = ALLOCS.with(|a| a.get()) - a;
    (n, written(top))
}

struct Bufs { long: Vec<u8>, out: Vec<u8>, small: Vec<u8> }
type Op = (&'static str, fn(&mut Bufs, usize, &mut dyn FnMut(&mut dyn FnMut()) -> ()));
/// `n` is the length that varies. The operations run their set-up calls under the same measurement.
macro_rules! ops { ($($name:expr => |$b:ident, $n:ident, $m:ident| $e:block)*) => { &[$(($name, |$b: &mut Bufs, $n: usize, $m: &mut dyn FnMut(&mut dyn FnMut())| $e)),*] } }
fn once<R>(m: &mut dyn FnMut(&mut dyn FnMut()), mut f: impl FnMut() -> R) -> R { let mut r = None; m(&mut || r = Some(f())); r.unwrap() }

fn hashes<H: HashFunction>(b: &mut Bufs, n: usize, m: &mut dyn FnMut(&mut dyn FnMut()), how: u8) {
    let Bufs { long, out, small } = b;
    let d = H::DIGEST_SIZE;
    match how {
        0 => once(m, || { let mut x = H::default(); x.update(&long[..n]); x.write_digest(&mut out[..d]) }),
        1 => once(m, || { let mut x = H::default(); for c in long[..n].chunks(n / 64 + 1) { x.update(c); x.update(&[]) } x.write_digest(&mut out[..d]) }),
        2 => once(m, || { let mut x = Hmac::<H>::new(&long[..n]); x.update(b"message"); out[..d].copy_from_slice(&x.tag()) }),
        3 => once(m, || { let mut x = Hmac::<H>::new(&small[..20]); for c in long[..n].chunks(n / 64 + 1) { x.update(c) } out[..d].copy_from_slice(&x.tag()) }),
        4 => {
            once(m, || { let mut x = Hmac::<H>::new(&small[..20]); x.update(&long[..n]); out[..d].copy_from_slice(&x.tag()) });
            assert!(once(m, || hmac::verify::<H>(&small[..20], &long[..n], &out[..d])));
            assert!(!once(m, || hmac::verify::<H>(&small[..20], &long[..n], &small[..d])));
            assert!(!once(m, || hmac::verify::<H>(&small[..20], &small[..9], &long[..if n == d { n + 1 } else { n }])));
        }
        5 => once(m, || hkdf::extract::<H>(&long[..n], &small[..40], &mut out[..d])),
        6 => once(m, || hkdf::extract::<H>(&small[..40], &long[..n], &mut out[..d])),
        7 => once(m, || hkdf::expand::<H>(&small[..d], &long[..n], &mut out[..2 * d + 1])),
        8 => { if n >= d { once(m, || hkdf::expand::<H>(&long[..n], &small[..9], &mut out[..2 * d + 1])) } }
        _ => { let n = n.min(255 * d); once(m, || hkdf::expand::<H>(&small[..d], &small[..9], &mut out[..n])) }
    }
}
fn aeads<C: AeadCipher>(b: &mut Bufs, n: usize, m: &mut dyn FnMut(&mut dyn FnMut()), k: usize, how: u8) {
    let Bufs { long, out, small } = b;
    let c = once(m, || C::new(&small[..k]));
    let (data, nonce) = (&small[..13], &small[64..76]);
    match how {
        0 => {
            let t = once(m, || c.encrypt(&long[..n], nonce, data, &mut out[..n]));
            let mut bad = t;
            bad[15] ^= 1;
            std::mem::swap(long, out); // long: ciphertext, out: message
            assert!(!once(m, || c.decrypt(&long[..n], nonce, data, &bad, &mut out[..n])));
            assert!(!once(m, || c.decrypt(&long[..n], nonce, data, &t[..12], &mut out[..n])));
            assert!(once(m, || c.decrypt(&long[..n], nonce, data, &t, &mut out[..n])));
            std::mem::swap(long, out);
        }
        _ => {
            let t = once(m, || c.encrypt(&small[..33], nonce, &long[..n], &mut out[..33]));
            let (ct, pt) = out.split_at_mut(33);
            assert!(once(m, || c.decrypt(ct, nonce, &long[..n], &t, &mut pt[..33])));
            assert!(!once(m, || c.decrypt(ct, nonce, &small[..9], &long[..if n == 16 { 17 } else { n }], &mut pt[..33])));
        }
    }
}
fn aes<C: BlockCipher>(b: &mut Bufs, m: &mut dyn FnMut(&mut dyn FnMut()), k: usize) {
    let c = once(m, || C::new(&b.small[..k]));
    let x: [u8; 16] = b.long[..16].try_into().unwrap();
    once(m, || c.permute(&x));
}
macro_rules! four { ($($how:expr, $what:expr;)*) => { vec![$(
    (concat!("sha224 ", $what), (|b: &mut Bufs, n: usize, m: &mut dyn FnMut(&mut dyn FnMut())| hashes::<Sha224>(b, n, m, $how)) as fn(&mut Bufs, usize, &mut dyn FnMut(&mut dyn FnMut()))),
    (concat!("sha256 ", $what), |b: &mut Bufs, n: usize, m: &mut dyn FnMut(&mut dyn FnMut())| hashes::<Sha256>(b, n, m, $how)),
    (concat!("sha384 ", $what), |b: &mut Bufs, n: usize, m: &mut dyn FnMut(&mut dyn FnMut())| hashes::<Sha384>(b, n, m, $how)),
    (concat!("sha512 ", $what), |b: &mut Bufs, n: usize, m: &mut dyn FnMut(&mut dyn FnMut())| hashes::<Sha512>(b, n, m, $how)),
)*] } }
fn table() -> &'static [Op] {
    static T: OnceLock<Vec<Op>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<Op> = four! {
            0, "one update"; 1, "updates"; 2, "hmac key"; 3, "hmac message"; 4, "hmac verify"; 5, "hkdf salt"; 6, "hkdf ikm"; 7, "hkdf info"; 8, "hkdf prk"; 9, "hkdf output";
        };
        let more: &[Op] = ops! {
            "hash wrappers" => |b, n, m| { let l = &b.long[..n]; once(m, || { sha2::sha224(l); sha2::sha256(l); sha2::sha384(l); sha2::sha512(l) }); }
            "hmac wrappers" => |b, n, m| { let (s, l) = (&b.small[..20], &b.long[..n]); once(m, || { hmac::hmac_sha224(l, s); hmac::hmac_sha256(s, l); hmac::hmac_sha384(l, s); hmac::hmac_sha512(s, l) }); }
            "aes128" => |b, _n, m| { aes::<Aes128>(b, m, 16) }
            "aes192" => |b, _n, m| { aes::<Aes192>(b, m, 24) }
            "aes256" => |b, _n, m| { aes::<Aes256>(b, m, 32) }
            "aes128gcm message" => |b, n, m| { aeads::<Gcm<Aes128>>(b, n, m, 16, 0) }
            "aes192gcm message" => |b, n, m| { aeads::<Gcm<Aes192>>(b, n, m, 24, 0) }
            "aes256gcm message" => |b, n, m| { aeads::<Gcm<Aes256>>(b, n, m, 32, 0) }
            "chacha20poly1305 message" => |b, n, m| { aeads::<ChaCha20Poly1305>(b, n, m, 32, 0) }
            "aes128gcm data" => |b, n, m| { aeads::<Gcm<Aes128>>(b, n, m, 16, 1) }
            "aes192gcm data" => |b, n, m| { aeads::<Gcm<Aes192>>(b, n, m, 24, 1) }
            "aes256gcm data" => |b, n, m| { aeads::<Gcm<Aes256>>(b, n, m, 32, 1) }
            "chacha20poly1305 data" => |b, n, m| { aeads::<ChaCha20Poly1305>(b, n, m, 32, 1) }
            "stream" => |b, n, m| {
                let Bufs { long, out, small } = b;
                let mut s = once(m, || Stream::new(&small[..32], &small[64..76]));
                once(m, || s.encrypt(&long[..n], &mut out[..n]));
                once(m, || s.nth(n));
                once(m, || s.by_ref().take(n).fold(0u8, |a, x| a ^ x));
                once(m, || s.decrypt(&long[..n], &mut out[..n]));
                once(m, || s.next());
            }
            "x25519" => |b, n, m| { let (s, u) = (&b.small[..32], &b.long[n % 64..n % 64 + 32]); once(m, || { curve25519::gen_pk(s); curve25519::dh(u, s); }); }
            "ed25519 sign" => |b, n, m| { let (s, l) = (&b.small[..32], &b.long[..n]); once(m, || { ed25519::gen_pk(s); }); once(m, || { ed25519::sign(l, s); }); }
            "ed25519 verify" => |b, n, m| {
                let (s, l) = (&b.small[..32], &b.long[..n]);
                let pk = once(m, || ed25519::gen_pk(s));
                let mut sig = once(m, || ed25519::sign(l, s));
                assert!(once(m, || ed25519::verify(l, &sig, &pk)));
                sig[5] ^= 1;
                assert!(!once(m, || ed25519::verify(l, &sig, &pk)));
                sig[63] = 0xff;
                assert!(!once(m, || ed25519::verify(l, &sig, &pk)));
                assert!(!once(m, || ed25519::verify(b"m", if n == 64 { &sig[..9] } else { l }, &pk)));
                let mut bad = pk;
                for i in 0..8 { bad[7] = i; once(m, || ed25519::verify(l, &sig, &bad)); }
            }
            "verify_16" => |b, n, m| { let x: [u8; 16] = b.small[..16].try_into().unwrap(); once(m, || util::verify_16(&x, &b.long[..n])); }
        };
        v.extend_from_slice(more);
        v
    })
}
const SHORT: usize = 600;
struct Seen { allocs: u64, depth: usize, calls: u64 }
fn run(op: usize, n: usize) -> Result<Seen, String> {
    let mut b = Bufs { long: mix(400, n.max(512)), out: vec![0x5a; n.max(64 * 256)], small: mix(401, 128) };
    let mut s = Seen { allocs: 0, depth: 0, calls: 0 };
    call(|| table()[op].1(&mut b, n, &mut |f| { let (a, d) = measure(f); s.allocs += a; s.depth = s.depth.max(d); s.calls += 1 })).map(|_| s)
}
/// The deepest that inputs of up to SHORT bytes go.
fn short_depth(op: usize) -> usize {
    static D: OnceLock<Vec<OnceLock<usize>>> = OnceLock::new();
    *D.get_or_init(|| table().iter().map(|_| OnceLock::new()).collect())[op].get_or_init(|| (0..=SHORT).step_by(if table()[op].0.contains("25519") { 37 } else { 3 }).filter_map(|n| run(op, n).ok()).map(|s| s.depth).max().unwrap_or(0))
}
fn check(c: &mut Ctx, op: usize, n: usize, long: bool) {
    let name = table()[op].0;
    let d = || format!("{name}, length {n}");
    match run(op, n) {
        Err(e) => c.fail(|| format!("panicked: {e}\n  {}", d())),
        Ok(s) => {
            if s.allocs > 0 { c.fail(|| format!("{} heap allocations\n  {}", s.allocs, d())) }
            if s.depth > CAP { c.fail(|| format!("at least {} bytes of stack used, more than {CAP}\n  {}", s.depth, d())) }
            if long && s.depth > short_depth(op) + SLACK { c.fail(|| format!("{} bytes of stack used; inputs of up to {SHORT} bytes use {}\n  {}", s.depth, short_depth(op), d())) }
            c.cover("stack depths (multiples of 64 bytes)", s.depth as u64 / 64);
            c.count("calls measured", s.calls);
            c.trace(s.calls, h(&[name.as_bytes(), &(n as u64).to_le_bytes()]), h(&[&s.allocs.to_le_bytes()]));
            c.note(|| format!("{}: no allocation, {} bytes of stack", d(), s.depth));
        }
    }
}
pub fn c25(t: bool) -> Vec<Family> {
    let ops = table().len() as u64;
    let (top, most) = if t { (24u64, 4) } else { (20, 4) };
    vec![
        fam("short", format!("{ops} operations x every length 0..={SHORT} of the input (key, salt, message, data, output ..) that varies"), ops * (SHORT as u64 + 1), move |i, c| check(c, (i % ops) as usize, (i / ops) as usize, false)),
        fam("long", format!("{ops} operations x lengths 2^k + {{-1, 0, 1, 13}}, k = 10..={top}"), ops * most * (top - 9), move |i, c| {
            let n = (1i64 << (10 + i / ops / most)) + [-1, 0, 1, 13][(i / ops % most) as usize];
            check(c, (i % ops) as usize, n as usize, true)
        }).limit(600),
    ]
}
