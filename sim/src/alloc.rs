//! Global allocator: every block carries a header, so that blocks allocated on behalf of the code under
//! test (thread flag TRACK) can be counted and a second free of a block is noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

thread_local! { pub static TRACK: Cell<bool> = const { Cell::new(false) }; }
pub static LIVE_COUNT: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);

const LIVE: u32 = 0x51AB_0001;
const DEAD: u32 = 0xDEAD_0001;
#[repr(C)]
struct Head { size: u64, magic: u32, tag: u32 }
pub struct SimAlloc;

#[inline] fn pad(l: &Layout) -> usize { if l.align() > 16 { l.align() } else { 16 } }

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(&l);
        let base = System.alloc(Layout::from_size_align_unchecked(l.size() + p, p));
        if base.is_null() { return base; }
        let tag = TRACK.with(|t| t.get()) as u32;
        let user = base.add(p);
        *(user as *mut Head).sub(1) = Head { size: l.size() as u64, magic: LIVE, tag };
        if tag != 0 { LIVE_COUNT.fetch_add(1, Relaxed); LIVE_BYTES.fetch_add(l.size() as i64, Relaxed); }
        user
    }
    unsafe fn dealloc(&self, ptr: *mut u8, l: Layout) {
        let h = (ptr as *mut Head).sub(1);
        if (*h).magic != LIVE { crate::rt::fatal(if (*h).magic == DEAD { "memory freed twice" } else { "free of memory that was not allocated (or overrun header)" }); }
        if (*h).size != l.size() as u64 { crate::rt::fatal("memory freed with the wrong size"); }
        (*h).magic = DEAD;
        if (*h).tag != 0 { LIVE_COUNT.fetch_sub(1, Relaxed); LIVE_BYTES.fetch_sub((*h).size as i64, Relaxed); }
        if l.size() >= 8 { std::ptr::write_bytes(ptr, 0xDD, l.size().min(64)); }
        let p = pad(&l);
        System.dealloc(ptr.sub(p), Layout::from_size_align_unchecked(l.size() + p, p));
    }
}
pub fn live() -> (i64, i64) { (LIVE_COUNT.load(Relaxed), LIVE_BYTES.load(Relaxed)) }
/// Runs `f` with allocations attributed to the code under test.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset { fn drop(&mut self) { TRACK.with(|t| t.set(self.0)); } }
    let _r = Reset(TRACK.with(|t| t.replace(true)));
    f()
}
