//! Buffers placed and sized in ways that ordinary allocations are not.
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn munmap(a: *mut u8, l: usize) -> i32;
}
const PAGE: usize = 4096;
const ANON: i32 = 0x4022; // private, anonymous, no reservation
fn up(n: usize) -> usize { (n + PAGE - 1) / PAGE * PAGE }

/// `len` bytes that begin with `head` and are zero after it; untouched pages cost nothing.
pub struct Long(*mut u8, usize);
impl Long {
    pub fn new(len: usize, head: &[u8]) -> Option<Long> {
        let p = unsafe { mmap(std::ptr::null_mut(), up(len), 3, ANON, -1, 0) };
        if p as isize == -1 { return None }
        let l = Long(p, len);
        let n = head.len().min(len);
        unsafe { std::slice::from_raw_parts_mut(p, n) }.copy_from_slice(&head[..n]);
        Some(l)
    }
    /// Only the first `open` bytes may be touched.
    pub fn gated(len: usize, open: usize, fill: u8) -> Option<Long> {
        let l = Long::new(len, &vec![fill; up(open)])?;
        if up(len) > up(open) { unsafe { mprotect(l.0.add(up(open)), up(len) - up(open), 0) }; }
        Some(l)
    }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.0, self.1) } }
    pub fn get_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.0, self.1) } }
}
impl Drop for Long { fn drop(&mut self) { unsafe { munmap(self.0, up(self.1)); } } }

/// Where a placed buffer lies.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    /// this many bytes after a 64-byte boundary, in ordinary memory
    At(usize),
    /// its last byte is the last byte before a page that must not be touched
    BeforeGuard,
    /// its first byte is the first byte after a page that must not be touched
    AfterGuard,
}
const EDGE: u8 = 0xee;
pub struct Placed { base: *mut u8, total: usize, start: usize, len: usize, map: bool }
impl Placed {
    pub fn new(b: &[u8], p: Place) -> Placed {
        let s = match p {
            Place::At(off) => {
                let mut v = vec![EDGE; b.len() + off + 160].into_boxed_slice();
                let base = v.as_mut_ptr();
                let total = v.len();
                std::mem::forget(v);
                Placed { base, total, start: base.align_offset(64) + off, len: b.len(), map: false }
            }
            _ => {
                let body = up(b.len()).max(PAGE);
                let base = unsafe { mmap(std::ptr::null_mut(), body + 2 * PAGE, 3, ANON, -1, 0) };
                assert!(base as isize != -1, "no memory");
                unsafe {
                    std::ptr::write_bytes(base.add(PAGE), EDGE, body);
                    mprotect(base, PAGE, 0);
                    mprotect(base.add(PAGE + body), PAGE, 0);
                }
                Placed { base, total: body + 2 * PAGE, start: if p == Place::AfterGuard { PAGE } else { PAGE + body - b.len() }, len: b.len(), map: true }
            }
        };
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), s.base.add(s.start), b.len()) };
        s
    }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.base.add(self.start), self.len) } }
    pub fn get_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.base.add(self.start), self.len) } }
    /// Nothing next to the buffer was written.
    pub fn surroundings_intact(&self) -> bool {
        let (lo, hi) = if self.map { (PAGE, self.total - PAGE) } else { (0, self.total) };
        let all = |a: usize, b: usize| unsafe { std::slice::from_raw_parts(self.base.add(a), b - a) }.iter().all(|&x| x == EDGE);
        all(lo, self.start) && all(self.start + self.len, hi)
    }
}
impl Drop for Placed {
    fn drop(&mut self) { unsafe { if self.map { munmap(self.base, self.total); } else { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.base, self.total))) } } }
}
