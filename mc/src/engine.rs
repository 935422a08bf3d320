//! The explorer: a property is a list of families, a family is an indexed finite set of executions,
//! and every index of every family is executed on the real library. Nothing is drawn at random.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing of states
#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3) } }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;
#[derive(Clone, Copy)]
pub struct H64(u64);
impl H64 {
    pub fn new() -> Self { H64(0x9e3779b97f4a7c15) }
    pub fn u(mut self, x: u64) -> Self {
        let t = (self.0 ^ x) as u128 * 0xd6e8feb86659fd93u128;
        self.0 = (t as u64 ^ (t >> 64) as u64).rotate_left(23).wrapping_add(0xa0761d6478bd642f);
        self
    }
    pub fn b(mut self, b: &[u8]) -> Self {
        let mut c = b.chunks_exact(8);
        for w in &mut c { self = self.u(u64::from_le_bytes(w.try_into().unwrap())) }
        let mut t = [0u8; 8];
        let r = c.remainder();
        t[..r.len()].copy_from_slice(r);
        self.u(u64::from_le_bytes(t)).u(b.len() as u64)
    }
    pub fn get(self) -> u64 { let x = self.0; (x ^ x >> 31).wrapping_mul(0xbf58476d1ce4e5b9) ^ x >> 17 }
}
pub fn h(parts: &[&[u8]]) -> u64 { let mut x = H64::new(); for p in parts { x = x.b(p) } x.get() }

// ---------------------------------------------------------------- byte patterns
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
    z ^ z >> 31
}
/// Fixed pseudo-random looking bytes; `id` names the sequence.
pub fn mix(id: u64, len: usize) -> Vec<u8> {
    let mut s = id.wrapping_mul(0x2545f4914f6cdd1d) ^ 0x5851f42d4c957f2d;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len { v.extend_from_slice(&splitmix(&mut s).to_le_bytes()) }
    v.truncate(len);
    v
}
pub fn mixa<const N: usize>(id: u64) -> [u8; N] { mix(id, N).try_into().unwrap() }
/// The byte patterns used where contents only need to be distinguishable.
pub fn pat(p: u64, len: usize) -> Vec<u8> {
    match p {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => (0..len).map(|i| (i * 7 + i / 251 + 3) as u8).collect(),
        3 => vec![0x80; len],
        p => mix(p, len),
    }
}
pub fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { write!(s, "{x:02x}").unwrap() } s }
pub fn show(b: &[u8]) -> String {
    if b.len() <= 300 { format!("[{}]{}", b.len(), hex(b)) } else { format!("[{}]{}..{} (hash {:016x})", b.len(), hex(&b[..32]), hex(&b[b.len() - 32..]), h(&[b])) }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

// ---------------------------------------------------------------- panics
thread_local! { static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
}
fn take_panic() -> (String, String) { LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default() }
/// True if a panic came from this crate (the harness), not from the library.
fn own_panic(loc: &str) -> bool { loc.starts_with("src/") || loc.contains("/mc/src/") }
/// Calls the library; Err carries the panic message. A panic of the harness itself is passed on.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let (m, l) = take_panic();
            if own_panic(&l) { LAST_PANIC.with(|p| *p.borrow_mut() = Some((m, l))); std::panic::resume_unwind(e) }
            Err(format!("{m} at {l}"))
        }
    }
}

// ---------------------------------------------------------------- families
pub struct Family { pub name: String, pub bounds: String, pub n: u64, pub grain: u64, pub limit_s: u64, pub run: Box<dyn Fn(u64, &mut Ctx) + Sync + Send> }
pub fn fam(name: &str, bounds: impl Into<String>, n: u64, run: impl Fn(u64, &mut Ctx) + Sync + Send + 'static) -> Family {
    Family { name: name.into(), bounds: bounds.into(), n, grain: 1, limit_s: 200, run: Box::new(run) }
}
impl Family { pub fn grain(mut self, g: u64) -> Self { self.grain = g; self } pub fn limit(mut self, s: u64) -> Self { self.limit_s = s; self } }

#[derive(Default)]
pub struct Stats {
    pub keep_obs: bool,
    pub states: IdSet, pub outcomes: IdSet, pub transitions: u64, pub traces: u64,
    pub counters: HashMap<&'static str, u64>, pub sets: HashMap<&'static str, IdSet>,
    pub obs: Vec<(u64, u64)>, pub fails: Vec<(u64, String)>, pub errors: Vec<String>, pub samples: Vec<(u64, String)>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.states.extend(o.states); self.outcomes.extend(o.outcomes);
        self.transitions += o.transitions; self.traces += o.traces;
        for (k, v) in o.counters { *self.counters.entry(k).or_default() += v }
        for (k, v) in o.sets { self.sets.entry(k).or_default().extend(v) }
        self.obs.extend(o.obs); self.fails.extend(o.fails); self.errors.extend(o.errors); self.samples.extend(o.samples);
    }
}
pub struct Ctx<'a> { pub st: &'a mut Stats, pub idx: u64, pub want_sample: bool, failed: bool, obs: H64 }
impl<'a> Ctx<'a> {
    /// One complete execution compared with the reference: `ops` library calls, canonical state hash
    /// (what was fed), outcome hash (what was observed).
    pub fn trace(&mut self, ops: u64, state: u64, outcome: u64) {
        self.st.traces += 1;
        self.st.transitions += ops;
        self.st.states.insert(state);
        self.st.outcomes.insert(outcome);
        self.obs = self.obs.u(outcome);
    }
    pub fn state(&mut self, s: u64) { self.st.states.insert(s); }
    pub fn count(&mut self, k: &'static str, n: u64) { *self.st.counters.entry(k).or_default() += n }
    pub fn cover(&mut self, k: &'static str, v: u64) { self.st.sets.entry(k).or_default().insert(v.wrapping_mul(0x9e3779b97f4a7c15)); }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if self.want_sample { self.want_sample = false; let i = self.idx; let s = f(); self.st.samples.push((i, s)) } }
    pub fn fail(&mut self, f: impl FnOnce() -> String) { if !self.failed { self.failed = true; let i = self.idx; let s = f(); self.st.fails.push((i, s)) } }
    pub fn failed(&self) -> bool { self.failed }
    /// Compares bytes; `d` describes the inputs.
    pub fn eq(&mut self, what: &str, got: &[u8], want: &[u8], d: impl FnOnce() -> String) -> bool {
        self.obs = self.obs.b(got);
        if got == want { return true }
        self.fail(|| format!("{what}\n  got      {}\n  expected {}\n  {}", show(got), show(want), d()));
        false
    }
    /// A library call that must not panic.
    pub fn must<R>(&mut self, what: &str, d: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match call(f) { Ok(r) => Some(r), Err(m) => { self.obs = self.obs.b(b"panic"); self.fail(|| format!("{what} panicked: {m}\n  {}", d())); None } }
    }
}

fn run_one(f: &Family, i: u64, st: &mut Stats) {
    let want = i == 0 || i == f.n / 2;
    let mut c = Ctx { st, idx: i, want_sample: want, failed: false, obs: H64::new() };
    if catch_unwind(AssertUnwindSafe(|| (f.run)(i, &mut c))).is_err() {
        let (m, l) = take_panic();
        if own_panic(&l) { c.st.errors.push(format!("harness panic in {}:{i}: {m} at {l}", f.name)) } else { c.obs = c.obs.b(b"panic"); c.fail(|| format!("unexpected panic: {m} at {l}")) }
    }
    if c.st.keep_obs { let o = c.obs.get(); c.st.obs.push((i, o)) }
}

// ---------------------------------------------------------------- journal of running cases (read after a crash)
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
pub struct Journal { base: *mut u64 }
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
impl Journal {
    pub fn open(path: &str) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("journal");
        f.set_len(4096).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Journal { base: p as *mut u64 }
    }
    fn set(&self, slot: usize, fam: u64, idx: u64) { unsafe { self.base.add(2 * slot).write_volatile(fam); self.base.add(2 * slot + 1).write_volatile(idx) } }
}

pub struct Opts { pub only: Option<(String, u64)>, pub journal: Option<String>, pub threads: usize, pub budget_s: u64, pub family: Option<String>,
    /// Record what every case observed and ignore disagreements with the reference (C19: builds are compared with each other).
    pub obs: bool }
pub struct FamResult { pub name: String, pub bounds: String, pub n: u64, pub done: u64, pub traces: u64, pub states: usize, pub secs: f64 }
pub struct Report { pub total: Stats, pub fams: Vec<FamResult>, pub failure: Option<(String, u64, String)>, pub extra: Vec<(u64, String)>, pub capped: bool, pub obs: Vec<(String, Vec<(u64, u64)>)> }

pub fn explore(fams: &[Family], o: &Opts) -> Report {
    let journal = o.journal.as_ref().map(|p| Journal::open(p));
    let mut rep = Report { total: Stats::default(), fams: vec![], failure: None, extra: vec![], capped: false, obs: vec![] };
    let t0 = Instant::now();
    for (fi, f) in fams.iter().enumerate() {
        if let Some((n, i)) = &o.only {
            if *n != f.name { continue }
            assert!(*i < f.n, "index out of range");
            let mut st = Stats { keep_obs: o.obs, ..Stats::default() };
            if let Some(j) = &journal { j.set(0, fi as u64 + 1, *i) }
            run_one(f, *i, &mut st);
            rep.fams.push(FamResult { name: f.name.clone(), bounds: f.bounds.clone(), n: f.n, done: 1, traces: st.traces, states: st.states.len(), secs: 0.0 });
            if o.obs { println!("OBS {:016x} {}", st.obs[0].1, st.fails.first().map_or(String::new(), |x| x.1.replace('\n', " "))); st.fails.clear() }
            if let Some((i, m)) = st.fails.first() { rep.failure = Some((f.name.clone(), *i, m.clone())) }
            rep.total.merge(st);
            continue;
        }
        if let Some(n) = &o.family { if *n != f.name { continue } }
        let tf = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let all = Mutex::new(Stats::default());
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..o.threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let live = AtomicU64::new(o.threads as u64);
        std::thread::scope(|s| {
            for t in 0..o.threads {
                let (next, stop, done, all, slots, live, journal) = (&next, &stop, &done, &all, &slots, &live, &journal);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let mut st = Stats { keep_obs: o.obs, ..Stats::default() };
                    'o: loop {
                        let a = next.fetch_add(f.grain, Relaxed);
                        if a >= f.n { break }
                        for i in a..(a + f.grain).min(f.n) {
                            if stop.load(Relaxed) { break 'o }
                            if o.budget_s > 0 && t0.elapsed().as_secs() > o.budget_s { stop.store(true, Relaxed); break 'o }
                            slots[t].1.store(t0.elapsed().as_secs(), Relaxed);
                            slots[t].0.store(i, Relaxed);
                            if let Some(j) = journal { j.set(t, fi as u64 + 1, i) }
                            run_one(f, i, &mut st);
                            done.fetch_add(1, Relaxed);
                            // keep going a little to find the simplest failing index, but not for ever
                            if o.obs { st.fails.clear() }
                            if st.fails.len() > 20 || st.errors.len() > 3 { stop.store(true, Relaxed) }
                        }
                    }
                    slots[t].0.store(u64::MAX, Relaxed);
                    if let Some(j) = journal { j.set(t, 0, 0) }
                    all.lock().unwrap().merge(st);
                    live.fetch_sub(1, Relaxed);
                }).unwrap();
            }
            // watchdog: a library call that does not return is a failure of that case
            while live.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(5));
                let now = t0.elapsed().as_secs();
                for sl in &slots {
                    let i = sl.0.load(Relaxed);
                    if i != u64::MAX && now.saturating_sub(sl.1.load(Relaxed)) > f.limit_s && sl.0.load(Relaxed) == i {
                        println!("HANG {}:{} no answer within {} s", f.name, i, f.limit_s);
                        std::process::exit(3);
                    }
                }
            }
        });
        let mut st = all.into_inner().unwrap();
        st.fails.sort();
        if o.obs { let mut v = std::mem::take(&mut st.obs); v.sort(); rep.obs.push((f.name.clone(), v)) }
        st.samples.sort();
        let d = done.load(Relaxed);
        rep.fams.push(FamResult { name: f.name.clone(), bounds: f.bounds.clone(), n: f.n, done: d, traces: st.traces, states: st.states.len(), secs: tf.elapsed().as_secs_f64() });
        let fails = std::mem::take(&mut st.fails);
        rep.total.merge(st);
        if !rep.total.errors.is_empty() { break }
        if let Some((i, m)) = fails.first() {
            // Replay alone, twice.
            let mut again = vec![];
            for _ in 0..2 { let mut s = Stats::default(); run_one(f, *i, &mut s); again.push(s.fails.first().map(|x| x.1.clone())) }
            let note = if again.iter().all(|a| a.as_deref() == Some(m)) { "replayed alone twice: same failure".to_string() }
                else if again.iter().all(|a| a.is_none()) { "does NOT fail when replayed alone: the result depends on history or concurrent use".to_string() }
                else { format!("replays differ: {again:?}") };
            rep.failure = Some((f.name.clone(), *i, format!("{m}\n  {note}")));
            rep.extra = fails.into_iter().skip(1).take(20).collect();
            break;
        }
        if d < f.n { rep.capped = true; break }
    }
    rep
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { write!(o, "\\u{:04x}", c as u32).unwrap() } c => o.push(c) } }
    o.push('"');
    o
}
impl Report {
    pub fn json(&self, prop: &str, tier: &str, variant: &str, secs: f64) -> String {
        let t = &self.total;
        let mut s = String::new();
        write!(s, "{{\"property\":{},\"tier\":{},\"variant\":{},\"secs\":{secs:.2},\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"capped\":{},", jstr(prop), jstr(tier), jstr(variant), t.states.len(), t.transitions, t.traces, t.outcomes.len(), self.capped).unwrap();
        let mut c: Vec<_> = t.counters.iter().collect(); c.sort();
        write!(s, "\"counters\":{{{}}},", c.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")).unwrap();
        let mut c: Vec<_> = t.sets.iter().map(|(k, v)| (k, v.len())).collect(); c.sort();
        write!(s, "\"covered\":{{{}}},", c.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")).unwrap();
        write!(s, "\"families\":[{}],", self.fams.iter().map(|f| format!("{{\"name\":{},\"bounds\":{},\"cases\":{},\"explored\":{},\"traces\":{},\"states\":{},\"secs\":{:.2}}}", jstr(&f.name), jstr(&f.bounds), f.n, f.done, f.traces, f.states, f.secs)).collect::<Vec<_>>().join(",")).unwrap();
        write!(s, "\"samples\":[{}],", t.samples.iter().take(40).map(|x| jstr(&x.1)).collect::<Vec<_>>().join(",")).unwrap();
        write!(s, "\"errors\":[{}],", t.errors.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")).unwrap();
        match &self.failure {
            Some((f, i, m)) => write!(s, "\"failure\":{{\"family\":{},\"index\":{i},\"message\":{},\"more\":[{}]}}}}", jstr(f), jstr(m), self.extra.iter().map(|x| format!("{}", x.0)).collect::<Vec<_>>().join(",")).unwrap(),
            None => s.push_str("\"failure\":null}"),
        }
        s
    }
}
