//! C24: pairs and triples of calls on threads of their own, under every schedule that can make a difference.
//!
//! Every execution happens in a forked child, so that static data is as it is when a process starts ("cold"), or as it is
//! after some unrelated calls ("warm"). The instrumented library reports every access to memory outside the stack of its
//! thread. First every call is recorded alone: the 8-byte granules it reads and writes. Two calls that touch no granule
//! which one of them writes have only one class of equivalent schedules; otherwise every such access becomes a scheduling
//! point and the schedules are enumerated up to a bound on preemptions. Independently of that, one call is interrupted at
//! each of many places (counted in accesses) and the other one run there in full.
use crate::engine::*;
use crate::refs::{curve, sha2, sym};
use rt::sched;
use std::cell::UnsafeCell;
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, OnceLock};
use std::time::Instant;

// ---------------------------------------------------------------- the calls
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { ShEnc(u8), ShDec(u8), ShBad(u8), ShAes(u8), OwnEnc(u8), OwnDec(u8), OwnAes(u8), Hash(u8), Mac(u8), MacParts(u8), MacV(u8), MacBad(u8), Kdf(u8), Stream, XPk, XDh, EdPk, EdSign, EdVer, EdBad, V16, Racy, RacyScratch, Lock }
use K::*;
const KINDS: [K; 47] = [ShEnc(0), ShEnc(1), ShEnc(2), ShEnc(3), ShEnc(4), ShDec(0), ShDec(1), ShDec(2), ShDec(3), ShBad(0), ShBad(3), ShAes(0), ShAes(1), ShAes(2),
    OwnEnc(0), OwnEnc(1), OwnEnc(2), OwnEnc(3), OwnDec(0), OwnDec(3), OwnAes(0), OwnAes(1), OwnAes(2), Hash(0), Hash(1), Hash(2), Hash(3), Mac(0), Mac(1), Mac(2), Mac(3), MacParts(1), MacParts(3),
    MacV(1), MacV(3), MacBad(1), Kdf(0), Kdf(1), Kdf(2), Kdf(3), Stream, XPk, XDh, EdPk, EdSign, EdVer, EdBad];
fn kinds() -> Vec<K> { let mut v = KINDS.to_vec(); v.push(V16); v }
fn curve_op(k: K) -> bool { matches!(k, XPk | XDh | EdPk | EdSign | EdVer | EdBad) }
/// Arguments: (key, message length, data length, nonce).
const VARS: [(u64, usize, usize, u64); 7] = [(1, 20, 5, 1), (1, 130, 40, 2), (2, 65, 0, 1), (1, 0, 20, 3), (2, 300, 300, 2), (1, 1500, 7, 1), (3, 20, 5, 4)];
fn nvars(t: bool) -> usize { if t { 7 } else { 5 } }
const SPARE: usize = 6; // the arguments of the calls made before a warm execution

const MAXM: usize = 2048;
#[repr(C, align(64))]
struct Role { key: [u8; 64], nonce: [u8; 16], aad: [u8; 512], msg: [u8; MAXM], tag: [u8; 64], out: [u8; MAXM], kl: usize, al: usize, ml: usize, tl: usize }
struct Slot<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Slot<T> {}
const R0: Role = Role { key: [0; 64], nonce: [0; 16], aad: [0; 512], msg: [0; MAXM], tag: [0; 64], out: [0; MAXM], kl: 0, al: 0, ml: 0, tl: 0 };
static ROLES: Slot<[Role; 5]> = Slot(UnsafeCell::new([R0; 5]));
/// The objects the threads share; always at the same place.
struct Shared { aead: [Option<drv::Obj>; 5], aes: [Option<drv::AesObj>; 3] }
static SHARED: Slot<Shared> = Slot(UnsafeCell::new(Shared { aead: [const { None }; 5], aes: [const { None }; 3] }));
static LOCK: std::sync::Mutex<u32> = std::sync::Mutex::new(0);

fn role(r: usize) -> &'static mut Role { unsafe { &mut (*ROLES.0.get())[r] } }
fn shared() -> &'static mut Shared { unsafe { &mut *SHARED.0.get() } }
fn keylen(k: u8) -> usize { [16, 24, 32, 32, 32][k as usize] }
fn shared_key(k: u8) -> Vec<u8> { mix(4000 + k as u64, keylen(k)) }

/// The arguments of a call, worked out by the references (never by the library).
#[derive(Clone)]
struct Args { key: Vec<u8>, nonce: Vec<u8>, aad: Vec<u8>, msg: Vec<u8>, tag: Vec<u8> }
fn args(k: K, v: usize) -> Args {
    let (kid, ml, al, nid) = VARS[v];
    let mut a = Args { key: mix(4100 + kid, 32), nonce: mix(4200 + nid, 12), aad: mix(4300 + v as u64, al), msg: mix(4400 + v as u64, ml), tag: vec![] };
    let seal = |kind: u8, key: &[u8], a: &Args| -> (Vec<u8>, [u8; 16]) {
        match kind {
            3 => sym::chapoly_seal(key, &a.nonce, &a.aad, &a.msg),
            4 => { let k: Vec<u8> = key.to_vec(); sym::GcmRef::new(move |b: &[u8; 16]| { let mut o = [0; 16]; for i in 0..16 { o[i] = if *b == [0; 16] { k[i] } else { b[i] ^ k[16 + i] } } o }).seal(&a.nonce, &a.aad, &a.msg) }
            _ => { let e = sym::Aes::new(key); sym::GcmRef::new(move |b: &[u8; 16]| e.enc(b)).seal(&a.nonce, &a.aad, &a.msg) }
        }
    };
    match k {
        ShEnc(x) => a.key = shared_key(x),
        ShDec(x) | ShBad(x) | OwnDec(x) => {
            a.key = if matches!(k, OwnDec(_)) { mix(4100 + kid, keylen(x)) } else { shared_key(x) };
            let (c, t) = seal(x, &a.key, &a);
            a.msg = c;
            a.tag = t.to_vec();
            if matches!(k, ShBad(_)) { a.tag[v % 16] ^= 1 << (v % 8) }
        }
        OwnEnc(x) => a.key = mix(4100 + kid, keylen(x)),
        OwnAes(x) => { a.key = mix(4100 + kid, keylen(x)); a.msg = mix(4400 + v as u64, 16) }
        ShAes(x) => { a.key = shared_key(x); a.msg = mix(4400 + v as u64, 16) }
        MacV(x) | MacBad(x) => { a.tag = sha2::hmac(sha2::ALGS[x as usize], &a.key, &a.msg); if matches!(k, MacBad(_)) { a.tag[v] ^= 0x10 } }
        XDh => a.msg = mix(4500 + v as u64, 32),
        EdSign => a.key = mix(4600 + kid, 32),
        EdVer | EdBad => {
            let e = curve::ed_key(&mixa(4600 + kid));
            a.tag = curve::ed_sign(&e, &a.msg).to_vec();
            a.key = e.pk.to_vec();
            if k == EdBad { a.tag[3] ^= 4 }
        }
        V16 => { a.msg = mix(4400, 16); a.tag = mix(4400, 16); if v & 1 == 1 { a.tag[v] ^= 0x40 } }
        RacyScratch => a.msg = mix(4400 + v as u64, 16),
        _ => {}
    }
    a
}
fn args_cached(k: K, v: usize) -> Arc<Args> {
    static C: std::sync::Mutex<Option<HashMap<(String, usize), Arc<Args>>>> = std::sync::Mutex::new(None);
    let key = (format!("{k:?}"), v);
    if let Some(a) = C.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) { return a.clone() }
    let a = Arc::new(args(k, v));
    C.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, a.clone());
    a
}
fn load(r: usize, a: &Args) {
    let x = role(r);
    x.key[..a.key.len()].copy_from_slice(&a.key);
    x.nonce[..a.nonce.len()].copy_from_slice(&a.nonce);
    x.aad[..a.aad.len()].copy_from_slice(&a.aad);
    x.msg[..a.msg.len()].copy_from_slice(&a.msg);
    x.tag[..a.tag.len()].copy_from_slice(&a.tag);
    x.out = [0; MAXM];
    (x.kl, x.al, x.ml, x.tl) = (a.key.len(), a.aad.len(), a.msg.len(), a.tag.len());
}
/// New shared objects for the calls that use them.
fn fresh(ks: &[K]) {
    let s = shared();
    for k in ks {
        match *k {
            ShEnc(x) | ShDec(x) | ShBad(x) => s.aead[x as usize] = Some(drv::aead_new(x, &shared_key(x))),
            ShAes(x) => s.aes[x as usize] = Some(drv::aes_new(x, &shared_key(x))),
            _ => {}
        }
    }
}
/// What a call returns and writes.
fn exec(k: K, r: usize) -> Vec<u8> {
    let x = role(r);
    let (key, nonce, aad, msg, tag) = (&x.key[..x.kl], &x.nonce[..12], &x.aad[..x.al], &x.msg[..x.ml], &x.tag[..x.tl]);
    let m = x.ml;
    let sh: &Shared = shared();
    let mut extra: Vec<u8> = vec![];
    let n = match k {
        ShEnc(o) => { extra = drv::aead_enc(sh.aead[o as usize].as_ref().unwrap(), msg, nonce, aad, &mut x.out[..m]).to_vec(); m }
        ShDec(o) | ShBad(o) => { extra.push(drv::aead_dec(sh.aead[o as usize].as_ref().unwrap(), msg, nonce, aad, tag, &mut x.out[..m]) as u8); m }
        ShAes(o) => { extra = drv::aes_block(sh.aes[o as usize].as_ref().unwrap(), msg.try_into().unwrap()).to_vec(); 0 }
        OwnEnc(o) => { let c = drv::aead_new(o, key); extra = drv::aead_enc(&c, msg, nonce, aad, &mut x.out[..m]).to_vec(); m }
        OwnDec(o) => { let c = drv::aead_new(o, key); extra.push(drv::aead_dec(&c, msg, nonce, aad, tag, &mut x.out[..m]) as u8); m }
        OwnAes(o) => { let c = drv::aes_new(o, key); extra = drv::aes_block(&c, msg.try_into().unwrap()).to_vec(); 0 }
        Hash(a) => { drv::digest(a, msg, &mut x.out[..64]); 64 }
        Mac(a) => { drv::mac(a, key, msg, &mut x.out[..64]); 64 }
        MacParts(a) => { drv::mac_parts(a, key, msg, m / 3, &mut x.out[..64]); 64 }
        MacV(a) | MacBad(a) => { extra.push(drv::mac_verify(a, key, msg, tag) as u8); 0 }
        Kdf(a) => { drv::kdf(a, key, msg, aad, &mut x.out[..150]); 150 }
        Stream => { drv::stream(key, nonce, msg, &mut x.out[..m]); m }
        XPk => { extra = drv::x_pk(key).to_vec(); 0 }
        XDh => { extra = drv::x_dh(msg, key).to_vec(); 0 }
        EdPk => { extra = drv::ed_pk(key).to_vec(); 0 }
        EdSign => { extra = drv::ed_sign(msg, key).to_vec(); 0 }
        EdVer | EdBad => { extra.push(drv::ed_verify(msg, tag, key) as u8); 0 }
        V16 => { extra.push(drv::verify16(msg.try_into().unwrap(), tag) as u8); 0 }
        Racy => { extra = drv::racy_increment().to_le_bytes().to_vec(); 0 }
        RacyScratch => { extra = drv::racy_scratch(msg.try_into().unwrap()).to_vec(); 0 }
        Lock => { let g = LOCK.lock().unwrap(); let v = drv::racy_increment(); drop(g); extra.push((v > 0) as u8); 0 }
    };
    extra.extend_from_slice(&x.out[..n]);
    extra
}

// ---------------------------------------------------------------- children
extern "C" { fn fork() -> i32; fn pipe(p: *mut i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; fn write(f: i32, b: *const u8, n: usize) -> isize; fn close(f: i32) -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn alarm(s: u32) -> u32; }
/// Runs `f` in a forked copy of the process; its bytes come back through a pipe.
fn child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    // one fork at a time, so that no other child holds this pipe's end
    static FORK: std::sync::Mutex<()> = std::sync::Mutex::new(());
    unsafe {
        let g = FORK.lock().unwrap();
        let mut p = [0; 2];
        assert_eq!(pipe(p.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            alarm(120);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let Ok(v) = r else { _exit(7) };
            let mut o = 0;
            while o < v.len() { let k = write(p[1], v.as_ptr().add(o), v.len() - o); if k <= 0 { _exit(8) } o += k as usize }
            _exit(0)
        }
        close(p[1]);
        drop(g);
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop { let k = read(p[0], b.as_mut_ptr(), b.len()); if k <= 0 { break } v.extend_from_slice(&b[..k as usize]) }
        close(p[0]);
        let mut s = 0;
        waitpid(pid, &mut s, 0);
        match (s & 127, s >> 8 & 255) {
            (0, 0) => Ok(v),
            (0, 4) => Err("the calls never finish (deadlock)".into()),
            (14, _) => Err("no answer within 120 s".into()),
            (0, 7) => panic!("harness panic in a child"),
            (0, c) => Err(format!("the process exited with status {c}")),
            (s, _) => Err(format!("the process was killed by signal {s}")),
        }
    }
}
struct W(Vec<u8>);
impl W { fn n(&mut self, x: usize) { self.0.extend_from_slice(&(x as u64).to_le_bytes()) } fn b(&mut self, b: &[u8]) { self.n(b.len()); self.0.extend_from_slice(b) } }
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn n(&mut self) -> usize { let (a, b) = self.0.split_at(8); self.0 = b; u64::from_le_bytes(a.try_into().unwrap()) as usize }
    fn b(&mut self) -> Vec<u8> { let n = self.n(); let (a, b) = self.0.split_at(n); self.0 = b; a.to_vec() }
}
type Call = (K, usize);
/// (Locks of the parent must not be touched in a child: the arguments are worked out before.)
fn prelude(cs: &[Call], spare: &[Arc<Args>]) {
    for ((k, _), a) in cs.iter().zip(spare) { fresh(&[*k]); load(4, a); let _ = call(|| exec(*k, 4)); }
}
/// A call recorded alone: its result, the granules it touches (1 read, 2 written) outside its stack and its own
/// arguments, the number of its accesses.
#[derive(Clone)]
struct Alone { result: Result<Vec<u8>, String>, granules: Vec<(usize, u8)>, accesses: u64 }
fn record(c: Call, warm: bool) -> Result<Alone, String> {
    let a = args_cached(c.0, c.1);
    let sp = [args_cached(c.0, SPARE)];
    let d = child(|| {
        if warm { prelude(&[c], &sp) }
        fresh(&[c.0]);
        load(0, &a);
        let (r, s) = sched::record(|| call(|| exec(c.0, 0)));
        let mut w = W(vec![]);
        match r { Ok(v) => { w.n(1); w.b(&v) } Err(m) => { w.n(0); w.b(m.as_bytes()) } }
        w.n(s.accesses as usize);
        let lo = ROLES.0.get() as usize >> 3;
        let hi = (ROLES.0.get() as usize + std::mem::size_of::<[Role; 5]>()) >> 3;
        let g: Vec<_> = s.granules.into_iter().filter(|(g, _)| !(lo..hi).contains(g)).collect();
        w.n(g.len());
        for (g, f) in g { w.n(g); w.n(f as usize) }
        w.0
    })?;
    let mut r = Rd(&d);
    let ok = r.n() == 1;
    let v = r.b();
    let accesses = r.n() as u64;
    let n = r.n();
    let granules = (0..n).map(|_| (r.n(), r.n() as u8)).collect();
    Ok(Alone { result: if ok { Ok(v) } else { Err(String::from_utf8_lossy(&v).into_owned()) }, granules, accesses })
}
/// (cold, warm)
fn alone(c: Call) -> Arc<Result<(Alone, Alone), String>> {
    type M = HashMap<(String, usize), Arc<OnceLock<Arc<Result<(Alone, Alone), String>>>>>;
    static C: std::sync::Mutex<Option<M>> = std::sync::Mutex::new(None);
    let cell = C.lock().unwrap().get_or_insert_with(HashMap::new).entry((format!("{:?}", c.0), c.1)).or_default().clone();
    cell.get_or_init(|| Arc::new(record(c, false).and_then(|a| record(c, true).map(|b| (a, b))))).clone()
}
fn conflicts(cs: &[Call]) -> Result<Vec<usize>, String> {
    let mut n: HashMap<usize, (u32, u32)> = HashMap::new(); // granule -> calls that touch it, calls that write it
    for c in cs {
        let a = alone(*c);
        let (x, y) = a.as_ref().as_ref().map_err(|e| e.clone())?;
        let mut m: HashMap<usize, u8> = HashMap::new();
        for (g, f) in x.granules.iter().chain(&y.granules) { *m.entry(*g).or_default() |= f }
        for (g, f) in m { let e = n.entry(g).or_default(); e.0 += 1; e.1 += (f & 2 != 0) as u32 }
    }
    let mut v: Vec<usize> = n.into_iter().filter(|(_, (t, w))| *t >= 2 && *w >= 1).map(|(g, _)| g).collect();
    v.sort();
    Ok(v)
}

// ---------------------------------------------------------------- schedules
#[derive(Clone, Debug)]
struct Sched { plan: Vec<usize>, targets: Vec<u64> }
struct Seen { results: Vec<Result<Vec<u8>, ()>>, points: Vec<sched::Point>, infeasible: bool, diverged: bool }
/// Executes schedules one after the other in one child.
fn run(cs: &[Call], warm: bool, conf: &HashSet<usize>, ss: &[Sched]) -> Result<Vec<Seen>, String> {
    let aa: Vec<_> = cs.iter().map(|c| args_cached(c.0, c.1)).collect();
    let sp: Vec<_> = cs.iter().map(|c| args_cached(c.0, SPARE)).collect();
    let d = child(|| {
        let mut w = W(vec![]);
        if warm { prelude(cs, &sp) }
        for s in ss {
            let ks: Vec<K> = cs.iter().map(|c| c.0).collect();
            fresh(&ks);
            for (i, a) in aa.iter().enumerate() { load(i, a) }
            let bodies: Vec<sched::Body> = ks.iter().enumerate().map(|(i, k)| { let k = *k; Box::new(move || exec(k, i)) as sched::Body }).collect();
            let r = sched::run(bodies, &s.plan, conf, &s.targets);
            for x in &r.results { match x { Ok(v) => { w.n(1); w.b(v) } Err(_) => w.n(0) } }
            w.n(r.infeasible as usize);
            w.n(r.diverged as usize);
            let np = r.points.len().min(4000);
            w.n(np);
            for p in &r.points[..np] { w.n(p.running); w.n(p.runnable as usize); w.n(p.chosen); w.n(p.enabled.iter().fold(0, |a, t| a | 1 << t)) }
        }
        w.0
    })?;
    let mut r = Rd(&d);
    Ok(ss.iter().map(|_| {
        let results = cs.iter().map(|_| if r.n() == 1 { Ok(r.b()) } else { Err(()) }).collect();
        let (infeasible, diverged) = (r.n() == 1, r.n() == 1);
        let n = r.n();
        let points = (0..n).map(|_| { let (running, q, chosen, e) = (r.n(), r.n() == 1, r.n(), r.n()); sched::Point { running, runnable: q, enabled: (0..8).filter(|t| e >> t & 1 == 1).collect(), chosen } }).collect();
        Seen { results, points, infeasible, diverged }
    }).collect())
}
fn show_points(p: &[sched::Point]) -> String {
    let sw: Vec<String> = p.iter().enumerate().filter(|(_, p)| p.chosen != p.running).map(|(i, p)| format!("#{i}: {}->{}", if p.running == usize::MAX { "start".into() } else { p.running.to_string() }, p.chosen)).take(30).collect();
    format!("{} decision points; switches {}", p.len(), sw.join(" "))
}
fn preemptions(p: &[sched::Point]) -> usize { p.iter().filter(|p| p.runnable && p.chosen != p.running).count() }
/// Compares one execution with the calls made alone.
fn judge(cs: &[Call], warm: bool, s: &Sched, seen: &Seen, c: &mut Ctx) -> bool {
    let mut hh = H64::new().u(warm as u64);
    for (k, v) in cs { hh = hh.b(format!("{k:?}").as_bytes()).u(*v as u64) }
    for p in &seen.points { hh = hh.u(p.chosen as u64) }
    for t in &s.targets { hh = hh.u(*t) }
    let mut oh = H64::new();
    for r in &seen.results { if let Ok(v) = r { oh = oh.b(v) } }
    c.trace(cs.len() as u64 + seen.points.len() as u64, hh.get(), oh.get());
    if seen.infeasible { c.count("schedules a lock made impossible (run freely instead)", 1) }
    if seen.diverged { c.count("schedules that diverged from their plan", 1) }
    for (i, (call, r)) in cs.iter().zip(&seen.results).enumerate() {
        let a = alone(*call);
        let Ok((cold, _)) = a.as_ref() else { continue };
        let same = match (&cold.result, r) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(())) => true, _ => false };
        if !same {
            c.fail(|| format!("{}: thread {i} ({:?} with arguments {:?}) returned something else than when run alone\n  got   {}\n  alone {}\n  static data {}; plan {:?} targets {:?}; {}", name(cs), call.0, VARS[call.1],
                match r { Ok(v) => show(v), Err(()) => "panic".into() }, match &cold.result { Ok(v) => show(v), Err(m) => format!("panic {m}") }, if warm { "used before" } else { "as at process start" }, s.plan, s.targets, show_points(&seen.points)));
            return false;
        }
    }
    true
}
fn name(cs: &[Call]) -> String { cs.iter().map(|c| format!("{:?}/{}", c.0, c.1)).collect::<Vec<_>>().join(" | ") }
static DFS_MS: AtomicU64 = AtomicU64::new(0);
/// Places at which to interrupt a call of `n` accesses: every one if there are at most `most`, otherwise evenly spread
/// with all of the first and last few.
fn places(n: u64, most: u64) -> Vec<u64> {
    if n <= most { return (1..=n).collect() }
    let edge = most / 4;
    let mid = most - 2 * edge;
    let mut v: Vec<u64> = (1..=edge).chain((0..mid).map(|i| edge + 1 + i * (n - 2 * edge) / mid)).chain(n - edge + 1..=n).collect();
    v.dedup();
    v
}
fn check(cs: &[Call], most: u64, t: bool, c: &mut Ctx) {
    for x in cs { if let Err(e) = alone(*x).as_ref() { let e = e.clone(); c.fail(|| format!("{:?} alone: {e}", x)); return } }
    let conf = match conflicts(cs) { Ok(v) => v, Err(e) => { c.fail(|| e); return } };
    let cset: HashSet<usize> = conf.iter().copied().collect();
    let none = HashSet::new();
    c.count(if conf.is_empty() { "groups without a conflicting access: one class of equivalent schedules" } else { "groups with conflicting accesses" }, 1);
    // every call interrupted at many places by the others
    let mut ss = vec![Sched { plan: vec![], targets: vec![] }];
    for first in 0..cs.len() {
        let n = alone(cs[first]).as_ref().as_ref().map(|a| a.0.accesses.max(a.1.accesses)).unwrap_or(0);
        for p in places(n, most) { let mut g = vec![u64::MAX; cs.len()]; g[first] = p; ss.push(Sched { plan: vec![first], targets: g }) }
    }
    for (warm, all) in [(true, true), (false, true), (false, false)] {
        // used before: all in one process; as at process start: one process each, for a choice of them
        let some: Vec<Sched> = if all && !warm { vec![ss[0].clone()] } else if warm { ss.clone() } else { let k = if t { 24 } else { 6 }; (0..k).map(|i| ss[(1 + i * (ss.len().max(2) - 2) / (k - 1)).min(ss.len() - 1)].clone()).collect() };
        let batches: Vec<&[Sched]> = if warm { vec![&some] } else { some.iter().map(std::slice::from_ref).collect() };
        for b in batches {
            match run(cs, warm, &none, b) {
                Err(e) => { c.fail(|| format!("{}: {e}\n  static data {}; schedules {:?}..", name(cs), if warm { "used before" } else { "as at process start" }, &b[0])); return }
                Ok(v) => for (s, x) in b.iter().zip(&v) { if !judge(cs, warm, s, x, c) { return } }
            }
        }
    }
    if conf.is_empty() { return }
    // conflicting accesses: all schedules up to the bound on preemptions
    let bound = if t { 3 } else { 2 };
    let t0 = Instant::now();
    for warm in [false, true] {
        let spent = DFS_MS.load(Relaxed);
        let cap = if t { 4000 } else if spent < 400_000 { 400 } else if spent < 1_200_000 { 60 } else { 8 };
        let mut queue: VecDeque<Vec<usize>> = (0..cs.len()).map(|i| vec![i]).collect();
        let mut seen: HashSet<Vec<usize>> = HashSet::new();
        let mut done = 0;
        let mut stuck = 0;
        while let Some(plan) = queue.pop_front() {
            if done >= cap || stuck > 20 { c.count("groups whose schedules were cut off", 1); break }
            done += 1;
            let s = Sched { plan: plan.clone(), targets: vec![] };
            let x = match run(cs, warm, &cset, std::slice::from_ref(&s)) { Ok(mut v) => v.remove(0), Err(e) => { c.fail(|| format!("{}: {e}\n  plan {plan:?}", name(cs))); return } };
            if !judge(cs, warm, &s, &x, c) { return }
            if x.infeasible { stuck += 1; continue }
            let ch: Vec<usize> = x.points.iter().map(|p| p.chosen).collect();
            let mut at: Vec<usize> = (plan.len()..x.points.len()).collect();
            // spread over the execution first, details later
            if at.len() > 24 { let n = at.len(); at.sort_by_key(|i| ((*i as u64).reverse_bits() >> 40) * 7 % n as u64) }
            for i in at.into_iter().take(600) {
                for e in &x.points[i].enabled {
                    if *e == ch[i] { continue }
                    let pre = preemptions(&x.points[..i]) + (x.points[i].runnable && *e != x.points[i].running) as usize;
                    if pre > bound { continue }
                    let mut p = ch[..i].to_vec();
                    p.push(*e);
                    if seen.insert(p.clone()) { queue.push_back(p) }
                }
            }
        }
    }
    DFS_MS.fetch_add(t0.elapsed().as_millis() as u64, Relaxed);
}

pub fn families(t: bool) -> Vec<Family> {
    let ks = kinds();
    let nv = nvars(t);
    let tys = drv::shareable();
    let nt = tys.len() as u64;
    let mut v = vec![fam("types", "every public type that holds state: may be shared between threads and sent to another one", nt, move |i, c| {
        let (n, sync, send) = tys[i as usize];
        c.trace(1, h(&[n.as_bytes()]), (sync as u64) << 1 | send as u64);
        if !sync { c.fail(|| format!("{n} can no longer be shared between threads (not Sync)")) }
        if !send { c.fail(|| format!("{n} can no longer be sent to another thread (not Send)")) }
    })];
    let k2 = ks.clone();
    v.push(fam("alone", format!("{} calls x {nv} argument tuples, alone, static data as at process start and used before: result and accessed memory", ks.len()), (ks.len() * nv) as u64, move |i, c| {
        let call = (k2[i as usize / nv], i as usize % nv);
        match alone(call).as_ref() {
            Err(e) => { let e = e.clone(); c.fail(|| format!("{call:?}: {e}")) }
            Ok((a, b)) => {
                let o = match &a.result { Ok(v) => h(&[v]), Err(m) => h(&[m.as_bytes()]) };
                c.trace(a.accesses + b.accesses, h(&[format!("{call:?}").as_bytes()]), o);
                for (g, _) in a.granules.iter().chain(&b.granules) { c.cover("granules outside stack and arguments", *g as u64) }
                let wr = a.granules.iter().chain(&b.granules).filter(|g| g.1 & 2 != 0).count();
                c.count("granules written outside stack and arguments", wr as u64);
                c.count("accesses recorded", a.accesses + b.accesses);
                c.note(|| format!("{call:?}: {} accesses outside the stack, {} granules outside its arguments, {wr} written", a.accesses, a.granules.len()));
                if a.result.as_ref().ok() != b.result.as_ref().ok() { c.fail(|| format!("{call:?}: alone, the result depends on whether the library was used before: {:?} {:?}", a.result, b.result)) }
            }
        }
    }));
    // the same call twice, all pairs of arguments
    let mut same: Vec<Vec<Call>> = vec![];
    for k in &ks { for a in 0..nv { for b in 0..nv { same.push(vec![(*k, a), (*k, b)]) } } }
    let n = same.len() as u64;
    v.push(fam("same-call-pairs", format!("two threads make the same call, {} calls x all pairs of {nv} argument tuples (same and different keys, lengths); each interrupted at up to {} places", ks.len(), if t { 400 } else { 60 }), n, move |i, c| {
        let p = &same[i as usize];
        let most = match (curve_op(p[0].0), t) { (false, false) => 60, (false, true) => 400, (true, false) => 8, (true, true) => 60 };
        check(p, most, t, c)
    }).limit(600));
    // different calls
    let mut cross: Vec<Vec<Call>> = vec![];
    for (i, a) in ks.iter().enumerate() { for b in &ks[..i] { for (x, y) in if t { vec![(0, 1), (1, 0), (1, 4), (2, 2)] } else { vec![(1, 0)] } { cross.push(vec![(*a, x), (*b, y)]) } } }
    let n = cross.len() as u64;
    v.push(fam("different-call-pairs", format!("every pair of two different calls of {}; each interrupted at up to {} places", ks.len(), if t { 48 } else { 8 }), n, move |i, c| check(&cross[i as usize], match t { true => 48, false => 8 }, t, c)).limit(600));
    // three threads
    let three: Vec<K> = if t { ks.clone() } else { vec![ShEnc(0), ShDec(3), ShAes(2), OwnEnc(2), Hash(3), Kdf(1), EdSign, XDh] };
    let mut tri: Vec<Vec<Call>> = vec![];
    for k in &ks { tri.push(vec![(*k, 0), (*k, 1), (*k, 2)]) }
    if t { for (i, a) in three.iter().enumerate() { for (j, b) in three[..i].iter().enumerate() { for d in [&three[(i + j) % three.len()], &three[(i * 7 + j * 3) % three.len()]] { tri.push(vec![(*a, 0), (*b, 1), (*d, 2)]) } } } }
    else { for (i, a) in three.iter().enumerate() { for (j, b) in three[..i].iter().enumerate() { for d in &three[..j] { tri.push(vec![(*a, 0), (*b, 1), (*d, 2)]) } } } }
    let n = tri.len() as u64;
    v.push(fam("triples", "three threads: every call three times with different arguments, and triples of different calls", n, move |i, c| check(&tri[i as usize], if t { 24 } else { 6 }, t, c)).limit(600));
    v
}

/// The planted races must be found, a lock must be got round, and harmless sharing must not be reported.
pub fn selftest() -> Result<(), String> {
    let fails = |cs: Vec<Call>| -> (usize, u64) {
        let f = fam("self", "", 1, move |_, c| check(&cs, 30, false, c));
        let r = explore(&[f], &Opts { only: Some(("self".into(), 0)), journal: None, threads: 1, budget_s: 0, family: None, obs: false });
        (r.failure.is_some() as usize, r.total.traces)
    };
    // a lost update: both threads return 1, never 1 and 2; alone the call returns 1 on a cold process
    let d = child(|| {
        let conf: HashSet<usize> = [&drv::COUNTER as *const _ as usize >> 3].into();
        let mut lost = 0;
        for plan in [vec![0, 0, 0], vec![0, 1, 1], vec![0, 0, 1]] {
            drv::COUNTER.store(0, std::sync::atomic::Ordering::SeqCst);
            let b: Vec<sched::Body> = (0..2).map(|_| Box::new(|| exec(Racy, 0)) as sched::Body).collect();
            let r = sched::run(b, &plan, &conf, &[]);
            if r.results.iter().all(|x| x.as_ref().is_ok_and(|v| v[0] == 1)) { lost += 1 }
        }
        vec![lost]
    })?;
    if d[0] == 0 { return Err("self-test: the lost update was not produced".into()) }
    let (f, _) = fails(vec![(RacyScratch, 0), (RacyScratch, 1)]);
    if f == 0 { return Err("self-test: the race on a static buffer was not found".into()) }
    let (f, _) = fails(vec![(Lock, 0), (Lock, 1)]);
    if f != 0 { return Err("self-test: sharing under a lock was reported".into()) }
    let a = alone((Hash(1), 1));
    let Ok((x, _)) = a.as_ref() else { return Err("self-test: recording failed".into()) };
    if x.accesses < 50 || x.granules.is_empty() { return Err(format!("self-test: the library is not instrumented ({} accesses)", x.accesses)) }
    Ok(())
}
