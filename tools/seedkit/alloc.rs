use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
/// Records the largest single allocation.
struct Alloc;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
fn largest() -> usize { LARGEST.load(Ordering::SeqCst) }
unsafe impl GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { LARGEST.fetch_max(l.size(), Ordering::SeqCst); unsafe { System.alloc(l) } }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: Alloc = Alloc;
