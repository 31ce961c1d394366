//! Monitoring allocator: counts live and peak bytes per thread, poisons fresh memory with a per-thread byte and
//! puts a canary behind (and in front of) every block. Feature `galloc`; off in sanitizer / Miri / valgrind builds,
//! where it would hide overreads from the tool.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const PAD: usize = 32;
const CANARY: u8 = 0xA7;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static POISON: Cell<u16> = const { Cell::new(256) };
}
static SMASHED: AtomicU64 = AtomicU64::new(0);
static CHECKED: AtomicU64 = AtomicU64::new(0);

pub struct Mon;

fn outer(l: Layout) -> Option<(Layout, usize)> {
    let pre = PAD.max(l.align());
    let size = l.size().checked_add(pre)?.checked_add(PAD)?;
    Some((Layout::from_size_align(size, l.align()).ok()?, pre))
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some((o, pre)) = outer(l) else { return std::ptr::null_mut() };
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p.add(pre - PAD), CANARY, PAD);
        std::ptr::write_bytes(p.add(pre + l.size()), CANARY, PAD);
        let _ = POISON.try_with(|c| {
            if c.get() < 256 {
                std::ptr::write_bytes(p.add(pre), c.get() as u8, l.size());
            }
        });
        let _ = LIVE.try_with(|c| {
            let v = c.get() + l.size() as i64;
            c.set(v);
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = COUNT.try_with(|n| n.set(n.get() + 1));
        });
        p.add(pre)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (o, pre) = outer(l).unwrap();
        let base = p.sub(pre);
        let ok = std::slice::from_raw_parts(p.sub(PAD), PAD).iter().all(|&b| b == CANARY)
            && std::slice::from_raw_parts(p.add(l.size()), PAD).iter().all(|&b| b == CANARY);
        if !ok {
            SMASHED.fetch_add(1, Relaxed);
        }
        CHECKED.fetch_add(1, Relaxed);
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(base, o)
    }
}

/// live bytes of this thread
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(|c| c.get())));
}
pub fn peak() -> i64 {
    PEAK.with(|c| c.get())
}
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
/// fill fresh memory of this thread with `b` (>= 256: leave as is)
pub fn poison(b: u16) {
    POISON.with(|c| c.set(b));
}
pub fn smashed() -> u64 {
    SMASHED.load(Relaxed)
}
pub fn checked() -> u64 {
    CHECKED.load(Relaxed)
}
