//! The cases of port-core for a machine with 32-bit addresses and no standard library.
#![no_std]
extern crate alloc;
use alloc::{string::String, vec::Vec};
use core::alloc::{GlobalAlloc, Layout};
use core::cell::UnsafeCell;
use port_core::{families, long_families, Fam, Out};

struct Bump(UnsafeCell<usize>);
unsafe impl Sync for Bump {}
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = self.0.get();
        if *n == 0 { *n = core::arch::wasm32::memory_size(0) << 16 }
        let at = (*n + l.align() - 1) & !(l.align() - 1);
        let end = match at.checked_add(l.size()) { Some(e) => e, None => return core::ptr::null_mut() };
        let have = core::arch::wasm32::memory_size(0) as u64 * 65536;
        if end as u64 > have && core::arch::wasm32::memory_grow(0, ((end as u64 - have + 65535) / 65536) as usize) == usize::MAX { return core::ptr::null_mut() }
        *n = end;
        at as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static HEAP: Bump = Bump(UnsafeCell::new(0));
struct State { fams: Vec<Fam>, mark: usize, text: String }
struct Global(UnsafeCell<Option<State>>);
unsafe impl Sync for Global {}
static STATE: Global = Global(UnsafeCell::new(None));

#[panic_handler]
fn panicked(_: &core::panic::PanicInfo) -> ! { core::arch::wasm32::unreachable() }

fn state() -> &'static mut State { unsafe { (*STATE.0.get()).as_mut().unwrap() } }
/// Prepares the families; returns how many there are.
#[no_mangle]
pub extern "C" fn init(level: u32, long: u32) -> u32 {
    let fams = if long == 0 { families(level) } else { long_families(level) };
    let n = fams.len() as u32;
    unsafe { *STATE.0.get() = Some(State { fams, mark: 0, text: String::new() }); (*STATE.0.get()).as_mut().unwrap().mark = *HEAP.0.get() }
    n
}
#[no_mangle]
pub extern "C" fn cases(f: u32) -> u32 { state().fams[f as usize].cases as u32 }
/// Runs a case; returns the hash of what it output.
#[no_mangle]
pub extern "C" fn run(f: u32, idx: u32, say: u32) -> u64 {
    let s = state();
    unsafe { *HEAP.0.get() = s.mark }
    let mut o = Out::new(say != 0);
    (s.fams[f as usize].run)(idx as u64, &mut o);
    if say != 0 { s.text = alloc::format!("{}\n{}", o.text, port_core::hex(&o.head)) }
    o.h ^ o.n
}
#[no_mangle]
pub extern "C" fn text_ptr() -> *const u8 { state().text.as_ptr() }
#[no_mangle]
pub extern "C" fn text_len() -> usize { state().text.len() }
