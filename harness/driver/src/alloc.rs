//! A global allocator that can keep freed blocks aside (never reused, filled with 0xDD) and tell whether
//! an address lies in a freed block.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub struct Quarantine;
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
const CAP: usize = 1 << 20;
static LEN: AtomicUsize = AtomicUsize::new(0);
static mut FREED: *mut (usize, usize) = std::ptr::null_mut();

fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let r = f();
    LOCK.store(false, SeqCst);
    r
}
pub fn enable() {
    unsafe {
        FREED = System.alloc(Layout::array::<(usize, usize)>(CAP).unwrap()) as *mut (usize, usize);
    }
    ON.store(true, SeqCst);
}
pub fn is_freed(addr: usize) -> bool {
    locked(|| unsafe {
        let n = LEN.load(SeqCst);
        (0..n).any(|i| {
            let (a, l) = *FREED.add(i);
            a <= addr && addr < a + l
        })
    })
}
unsafe impl GlobalAlloc for Quarantine {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) {
            std::ptr::write_bytes(p, 0xDD, l.size());
            let kept = locked(|| {
                let n = LEN.load(SeqCst);
                if n < CAP {
                    *FREED.add(n) = (p as usize, l.size());
                    LEN.store(n + 1, SeqCst);
                    true
                } else {
                    false
                }
            });
            if kept {
                return;
            }
        }
        System.dealloc(p, l)
    }
}
