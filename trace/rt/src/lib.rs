//! Run time behind the instrumentation. This crate is never instrumented.
//! * SanitizerCoverage callbacks: record the sequence of edges taken and of addresses touched or computed.
//! * memcpy and friends (feature `interpose`): record addresses, and for comparisons how far they had to look.
//! * ThreadSanitizer callbacks: report every shared access (file sched.rs).
#![allow(clippy::missing_safety_doc)]
use std::cell::UnsafeCell;
pub mod sched;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Event { pub kind: u8, pub addr: usize, pub extra: usize, pub pc: usize }
pub const KINDS: [&str; 16] = ["edge", "load1", "load2", "load4", "load8", "load16", "store1", "store2", "store4", "store8", "store16", "index", "memcpy", "memmove", "memset", "memcmp"];
pub struct Rec { on: bool, logging: bool, hash: u64, pub n: [u64; 16], moved: u64, log: Option<Vec<Event>> }
thread_local! { static REC: UnsafeCell<Rec> = const { UnsafeCell::new(Rec { on: false, logging: false, hash: 0, n: [0; 16], moved: 0, log: None }) }; }

#[inline(always)]
fn ev(kind: u8, addr: usize, extra: usize, pc: impl FnOnce() -> usize) {
    let _ = REC.try_with(|r| {
        let r = unsafe { &mut *r.get() };
        if !r.on { return }
        let t = (r.hash ^ addr as u64 ^ (extra as u64).rotate_left(40) ^ (kind as u64) << 57) as u128 * 0xd6e8feb86659fd93u128;
        r.hash = (t as u64 ^ (t >> 64) as u64).rotate_left(23).wrapping_add(0xa0761d6478bd642f);
        r.n[kind as usize] += 1;
        if r.logging { r.on = false; if let Some(l) = &mut r.log { if l.len() < 20_000_000 { l.push(Event { kind, addr, extra, pc: pc() }) } } r.on = true }
    });
}
/// The return address of the callback, for reports. Needs frame pointers in this crate (see .cargo/config.toml).
macro_rules! pc { () => { || { let x: usize; unsafe { core::arch::asm!("mov {}, [rbp + 8]", out(reg) x) } x } } }
pub fn begin(logging: bool) {
    REC.with(|r| {
        let r = unsafe { &mut *r.get() };
        r.hash = 0x9e3779b97f4a7c15;
        r.n = [0; 16];
        r.moved = 0;
        r.logging = logging;
        r.log = if logging { Some(Vec::with_capacity(1 << 20)) } else { None };
        r.on = true;
    })
}
/// (hash of the whole sequence of events, number of events of each kind, the events if logged)
pub fn end() -> (u64, [u64; 16], Option<Vec<Event>>) {
    REC.with(|r| { let r = unsafe { &mut *r.get() }; r.on = false; (r.hash, r.n, r.log.take()) })
}
/// Bytes copied, filled or compared through memcpy and friends since the last `begin`.
pub fn moved() -> u64 { REC.with(|r| unsafe { (*r.get()).moved }) }
#[cfg(feature = "interpose")]
fn bytes(n: usize) { let _ = REC.try_with(|r| { let r = unsafe { &mut *r.get() }; if r.on { r.moved += n as u64 } }); }
pub fn recording() -> bool { REC.try_with(|r| unsafe { (*r.get()).on }).unwrap_or(false) }

macro_rules! cov { ($($n:ident $k:expr),*) => { $(#[no_mangle] #[inline(never)] pub extern "C" fn $n(a: usize) { ev($k, a, 0, pc!()) })* } }
cov!(__sanitizer_cov_trace_pc_guard 0, __sanitizer_cov_load1 1, __sanitizer_cov_load2 2, __sanitizer_cov_load4 3, __sanitizer_cov_load8 4, __sanitizer_cov_load16 5,
     __sanitizer_cov_store1 6, __sanitizer_cov_store2 7, __sanitizer_cov_store4 8, __sanitizer_cov_store8 9, __sanitizer_cov_store16 10, __sanitizer_cov_trace_gep 11);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}

#[cfg(feature = "interpose")]
mod mem {
    use super::*;
    use core::arch::asm;
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        ev(12, d as usize, s as usize ^ n.rotate_left(48), pc!());
        bytes(n);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        ev(13, d as usize, s as usize ^ n.rotate_left(48), pc!());
        bytes(n);
        if (d as usize).wrapping_sub(s as usize) >= n { asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _); }
        else { asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _); }
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        ev(14, d as usize, n, pc!());
        bytes(n);
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8);
        d
    }
    // A comparison is taken to look at bytes one by one and to stop at the first difference.
    #[inline(always)]
    unsafe fn cmp(a: *const u8, b: *const u8, n: usize, pc: impl FnOnce() -> usize) -> i32 {
        let mut i = 0;
        let mut r = 0;
        while i < n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            i += 1;
            if x != y { r = x as i32 - y as i32; break }
        }
        ev(15, a as usize ^ (b as usize).rotate_left(17), n.rotate_left(32) ^ i, pc);
        bytes(i);
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 { cmp(a, b, n, pc!()) }
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 { cmp(a, b, n, pc!()) }
}

// ---------------------------------------------------------------- allocation
/// While recording, memory comes from a per-thread arena that starts anew with every recording, so that the addresses
/// a call allocates do not depend on what was allocated before.
pub struct Arena;
const ARENA: usize = 1 << 22;
thread_local! { static BUMP: UnsafeCell<(usize, usize)> = const { UnsafeCell::new((0, 0)) }; }
pub fn arena_reset() {
    BUMP.with(|b| unsafe {
        let b = &mut *b.get();
        if b.0 == 0 { b.0 = std::alloc::GlobalAlloc::alloc(&std::alloc::System, std::alloc::Layout::from_size_align_unchecked(ARENA, 4096)) as usize; }
        b.1 = 0;
    })
}
unsafe impl std::alloc::GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if recording() {
            if let Ok(p) = BUMP.try_with(|b| {
                let b = &mut *b.get();
                if b.0 == 0 { return core::ptr::null_mut() }
                let a = (b.0 + b.1 + l.align() - 1) & !(l.align() - 1);
                if a + l.size() > b.0 + ARENA { return core::ptr::null_mut() }
                b.1 = a + l.size() - b.0;
                a as *mut u8
            }) { if !p.is_null() { return p } }
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let mine = BUMP.try_with(|b| { let b = &*b.get(); b.0 != 0 && (b.0..b.0 + ARENA).contains(&(p as usize)) }).unwrap_or(false);
        if !mine { std::alloc::System.dealloc(p, l) }
    }
}
