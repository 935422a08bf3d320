//! Threads under control: every shared memory access of the instrumented code ends up in `acc`.
use std::cell::{Cell, UnsafeCell};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::*;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

extern "C" { fn _exit(c: i32) -> !; }
const OFF: u8 = 0;
const RECORD: u8 = 1;
const CONTROL: u8 = 2;
static CONF: AtomicPtr<HashSet<usize>> = AtomicPtr::new(std::ptr::null_mut());
pub const MAXT: usize = 4;

#[derive(Default)]
pub struct Summary { pub granules: HashMap<usize, u8>, pub accesses: u64 }
struct Me { mode: Cell<u8>, tid: Cell<usize>, lo: Cell<usize>, hi: Cell<usize>, count: Cell<u64>, target: Cell<u64>, rec: UnsafeCell<Option<Summary>> }
thread_local! { static ME: Me = const { Me { mode: Cell::new(OFF), tid: Cell::new(0), lo: Cell::new(0), hi: Cell::new(0), count: Cell::new(0), target: Cell::new(u64::MAX), rec: UnsafeCell::new(None) } }; }

/// A decision point: which thread was running (or had just ended), which threads could run, which one was chosen.
#[derive(Clone, Debug)]
pub struct Point { pub running: usize, pub runnable: bool, pub enabled: Vec<usize>, pub chosen: usize }
struct St { turn: usize, done: Vec<bool>, plan: Vec<usize>, points: Vec<Point>, free: bool, diverged: bool, last: Instant, spins: u64 }
static ST: Mutex<Option<St>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

#[inline(always)]
pub fn acc(a: usize, n: usize, write: bool) {
    let _ = ME.try_with(|me| {
        let mode = me.mode.get();
        if mode == OFF { return }
        if a >= me.lo.get() && a < me.hi.get() { return } // own stack
        me.mode.set(OFF);
        slow(me, mode, a, n, write);
        me.mode.set(mode);
    });
}
#[inline(never)]
fn slow(me: &Me, mode: u8, a: usize, n: usize, write: bool) {
    if mode == RECORD {
        if let Some(s) = unsafe { &mut *me.rec.get() } {
            s.accesses += 1;
            let f = if write { 2 } else { 1 };
            for g in a >> 3..=(a + n.max(1) - 1) >> 3 { *s.granules.entry(g).or_default() |= f }
        }
        return;
    }
    let c = me.count.get() + 1;
    me.count.set(c);
    if c == me.target.get() { return point(me.tid.get(), true) }
    let p = CONF.load(Ordering::Acquire);
    if !p.is_null() {
        let s = unsafe { &*p };
        if (a >> 3..=(a + n.max(1) - 1) >> 3).any(|g| s.contains(&g)) { point(me.tid.get(), false) }
    }
}
/// A scheduling point of thread `t`. `force`: the default is to switch away.
fn point(t: usize, force: bool) {
    let mut g = ST.lock().unwrap();
    {
        let Some(st) = g.as_mut() else { return };
        if st.free { return }
        st.last = Instant::now();
        let others: Vec<usize> = (0..st.done.len()).filter(|i| *i != t && !st.done[*i]).collect();
        if others.is_empty() { return }
        st.spins += 1;
        // somebody spinning: let the others run, or give up on this schedule
        if st.spins > 2_000_000 { st.free = true; CV.notify_all(); return }
        let fair = st.spins % 20_000 == 0;
        let mut enabled = vec![t];
        enabled.extend(&others);
        let default = if force || fair { others[0] } else { t };
        st.decide(t, true, enabled, default);
        if st.turn != t { CV.notify_all() }
    }
    while g.as_ref().is_some_and(|s| s.turn != t && !s.free) { g = CV.wait(g).unwrap() }
}
impl St {
    fn decide(&mut self, running: usize, runnable: bool, enabled: Vec<usize>, default: usize) {
        let k = self.points.len();
        let c = match self.plan.get(k) { Some(c) => { if !enabled.contains(c) { self.diverged = true; default } else { *c } } None => default };
        self.turn = c;
        if self.points.len() < 100_000 { self.points.push(Point { running, runnable, enabled, chosen: c }) }
    }
}

/// Runs `f` on this thread, recording every access outside its own stack.
pub fn record<R>(f: impl FnOnce() -> R) -> (R, Summary) {
    ME.with(|me| {
        // the stack below this frame belongs to the call
        let x = 0u8;
        let here = &x as *const u8 as usize;
        me.lo.set(here - (7 << 20));
        me.hi.set(here);
        unsafe { *me.rec.get() = Some(Summary::default()) }
        me.mode.set(RECORD);
        let r = f();
        me.mode.set(OFF);
        (r, unsafe { (*me.rec.get()).take().unwrap() })
    })
}
pub struct Run { pub results: Vec<Result<Vec<u8>, String>>, pub points: Vec<Point>, pub infeasible: bool, pub diverged: bool, pub accesses: Vec<u64> }
pub type Body<'a> = Box<dyn FnOnce() -> Vec<u8> + Send + 'a>;
/// Runs the bodies on threads of their own, one at a time, with the choices of `plan` at the first decision points and
/// the default afterwards. `conflicts`: granules whose accesses are scheduling points. `targets`: for each thread, the
/// number of an access at which it yields.
pub fn run(bodies: Vec<Body>, plan: &[usize], conflicts: &HashSet<usize>, targets: &[u64]) -> Run {
    let n = bodies.len();
    CONF.store(conflicts as *const _ as *mut _, Ordering::Release);
    let mut st = St { turn: usize::MAX, done: vec![false; n], plan: plan.to_vec(), points: vec![], free: false, diverged: false, last: Instant::now(), spins: 0 };
    st.decide(usize::MAX, false, (0..n).collect(), 0);
    *ST.lock().unwrap() = Some(st);
    let mut out = Run { results: vec![], points: vec![], infeasible: false, diverged: false, accesses: vec![] };
    std::thread::scope(|s| {
        let hs: Vec<_> = bodies.into_iter().enumerate().map(|(t, b)| {
            let target = targets.get(t).copied().unwrap_or(u64::MAX);
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
                { let mut g = ST.lock().unwrap(); while g.as_ref().is_some_and(|s| s.turn != t && !s.free) { g = CV.wait(g).unwrap() } }
                ME.with(|me| {
                    let x = 0u8;
                    let here = &x as *const u8 as usize;
                    me.lo.set(here - (7 << 20)); me.hi.set(here); me.tid.set(t); me.count.set(0); me.target.set(target); me.mode.set(CONTROL);
                });
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).map_err(|_| "panic".to_string());
                let c = ME.with(|me| { me.mode.set(OFF); me.count.get() });
                let mut g = ST.lock().unwrap();
                let st = g.as_mut().unwrap();
                st.done[t] = true;
                st.last = Instant::now();
                let rest: Vec<usize> = (0..n).filter(|i| !st.done[*i]).collect();
                if !rest.is_empty() && !st.free { let d = rest[0]; st.decide(t, false, rest, d) }
                CV.notify_all();
                (r, c)
            }).unwrap()
        }).collect();
        // a thread that waits for one that is stopped (a lock): let everything run
        loop {
            let g = ST.lock().unwrap();
            let (mut g, _) = CV.wait_timeout(g, Duration::from_millis(100)).unwrap();
            let st = g.as_mut().unwrap();
            if st.done.iter().all(|d| *d) { break }
            if !st.free && st.last.elapsed() > Duration::from_millis(500) { st.free = true; out.infeasible = true; CV.notify_all() }
            if st.free && st.last.elapsed() > Duration::from_secs(30) { unsafe { _exit(4) } }
        }
        for h in hs { let (r, c) = h.join().unwrap(); out.results.push(r); out.accesses.push(c) }
    });
    let st = ST.lock().unwrap().take().unwrap();
    out.infeasible |= st.free;
    out.diverged = st.diverged;
    out.points = st.points;
    CONF.store(std::ptr::null_mut(), Ordering::Release);
    out
}

// ---------------------------------------------------------------- the callbacks
#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_p: usize) {}
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle] pub extern "C" fn __tsan_ignore_thread_end() {}
macro_rules! plain { ($($n:ident $s:expr, $w:expr);* $(;)?) => { $(#[no_mangle] pub extern "C" fn $n(a: usize) { acc(a, $s, $w) })* } }
plain! {
    __tsan_read1 1, false; __tsan_read2 2, false; __tsan_read4 4, false; __tsan_read8 8, false; __tsan_read16 16, false;
    __tsan_write1 1, true; __tsan_write2 2, true; __tsan_write4 4, true; __tsan_write8 8, true; __tsan_write16 16, true;
    __tsan_unaligned_read2 2, false; __tsan_unaligned_read4 4, false; __tsan_unaligned_read8 8, false; __tsan_unaligned_read16 16, false;
    __tsan_unaligned_write2 2, true; __tsan_unaligned_write4 4, true; __tsan_unaligned_write8 8, true; __tsan_unaligned_write16 16, true;
    __tsan_read_write1 1, true; __tsan_read_write2 2, true; __tsan_read_write4 4, true; __tsan_read_write8 8, true; __tsan_read_write16 16, true;
    __tsan_unaligned_read_write2 2, true; __tsan_unaligned_read_write4 4, true; __tsan_unaligned_read_write8 8, true; __tsan_unaligned_read_write16 16, true;
    __tsan_vptr_read 8, false;
}
#[no_mangle] pub extern "C" fn __tsan_vptr_update(a: usize, _v: usize) { acc(a, 8, true) }
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { if n > 0 { acc(s as usize, n, false); acc(d as usize, n, true); std::ptr::copy(s, d, n) } d }
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { __tsan_memcpy(d, s, n) }
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { if n > 0 { acc(d as usize, n, true); std::ptr::write_bytes(d, c as u8, n) } d }
use Ordering::SeqCst;
macro_rules! atomics { ($($at:ident $t:ty, $s:expr, $ld:ident $st:ident $xc:ident $ad:ident $sb:ident $an:ident $or:ident $xo:ident $na:ident $cs:ident $cw:ident $cv:ident);* $(;)?) => { $(
    #[no_mangle] pub unsafe extern "C" fn $ld(p: *mut $t, _o: i32) -> $t { acc(p as usize, $s, false); $at::from_ptr(p).load(SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $st(p: *mut $t, v: $t, _o: i32) { acc(p as usize, $s, true); $at::from_ptr(p).store(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xc(p: *mut $t, v: $t, _o: i32) -> $t { acc(p as usize, $s, true); $at::from_ptr(p).swap(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $ad(p: *mut $t, v: $t, _o: i32) -> $t { acc(p as usize, $s, true); $at::from_ptr(p).fetch_add(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sb(p: *mut $t, v: $t, _o: i32) -> $t { acc(p as usize, $s, true); $at::from_ptr(p).fetch_sub(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $an(p: *mut $t, v: $t, _o: i32) -> $t { acc(p as usize, $s, true); $at::from_ptr(p).fetch_and(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t { acc(p as usize, $s, true); $at::from_ptr(p).fetch_or(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xo(p: *mut $t, v: $t, _o: i32) -> $t { acc(p as usize, $s, true); $at::from_ptr(p).fetch_xor(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $na(p: *mut $t, v: $t, _o: i32) -> $t { acc(p as usize, $s, true); $at::from_ptr(p).fetch_nand(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cs(p: *mut $t, e: *mut $t, v: $t, _a: i32, _b: i32) -> i32 { acc(p as usize, $s, true); match $at::from_ptr(p).compare_exchange(*e, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
    #[no_mangle] pub unsafe extern "C" fn $cw(p: *mut $t, e: *mut $t, v: $t, a: i32, b: i32) -> i32 { $cs(p, e, v, a, b) }
    #[no_mangle] pub unsafe extern "C" fn $cv(p: *mut $t, e: $t, v: $t, _a: i32, _b: i32) -> $t { acc(p as usize, $s, true); match $at::from_ptr(p).compare_exchange(e, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x } }
)* } }
atomics! {
    AtomicU8 u8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    AtomicU16 u16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    AtomicU32 u32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    AtomicU64 u64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {}
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
