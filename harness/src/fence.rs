//! Fencing allocator (feature `fence`): inside a fenced section every heap block ends at (or begins at) an inaccessible
//! page and never shares an address with an earlier block, so that any access outside a live block - by compiled code,
//! vector intrinsics or gathers, which compiler sanitizers do not instrument - stops the process with SIGSEGV.
//! The handler prints the running case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

const PAGE: usize = 4096;
/// address space of all fenced blocks, never reused
const ARENA: usize = 1 << 43;
const STEP: usize = 1 << 30;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn sigaction(s: i32, new: *const Action, old: *mut Action) -> i32;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

const NONE: i32 = 0;
const RW: i32 = 3;
const ANON: i32 = 0x22 | 0x4000;
const FIXED: i32 = 0x10;

static BASE: AtomicUsize = AtomicUsize::new(0);
static SIZE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicU64 = AtomicU64::new(0);

pub const TEXT: usize = 3000;
pub struct Note(pub UnsafeCell<[u8; TEXT]>);

thread_local! {
    /// 0 off, 1 blocks end at a guard page, 2 blocks begin at a guard page
    static MODE: Cell<u8> = const { Cell::new(0) };
    /// this thread's share of the arena
    static AT: Cell<usize> = const { Cell::new(0) };
    static END: Cell<usize> = const { Cell::new(0) };
    pub static WHAT: Note = const { Note(UnsafeCell::new([0; TEXT])) };
}

/// fence blocks allocated from here on by this thread (see MODE)
pub fn mode(m: u8) -> u8 {
    MODE.with(|c| c.replace(m))
}
pub fn blocks() -> u64 {
    BLOCKS.load(Relaxed)
}
/// what to print if this thread dies
pub fn note(s: &str) {
    WHAT.with(|w| unsafe {
        let w = &mut *w.0.get();
        let n = s.len().min(TEXT - 1);
        w[..n].copy_from_slice(&s.as_bytes()[..n]);
        w[n] = 0;
    });
}

extern "C" fn died(sig: i32, info: *const u8, _: *const u8) {
    unsafe {
        let addr = *(info.add(16) as *const usize);
        let base = BASE.load(Relaxed);
        let inside = base != 0 && addr >= base && addr < base + SIZE.load(Relaxed);
        let m: &[u8] = if inside { b"\nFENCE access outside every live heap block\t" } else { b"\nFENCE memory access fault\t" };
        write(2, m.as_ptr().cast(), m.len());
        WHAT.with(|w| {
            let w = &*w.0.get();
            let n = w.iter().position(|&b| b == 0).unwrap_or(TEXT);
            write(2, w.as_ptr().cast(), n);
        });
        write(2, b"\n".as_ptr().cast(), 1);
        _exit(128 + sig)
    }
}

/// reserve the address space and install the handler
pub fn start() {
    unsafe {
        let mut n = ARENA;
        let p = loop {
            let p = mmap(std::ptr::null_mut(), n, NONE, ANON, -1, 0);
            if p as isize != -1 {
                break p;
            }
            n /= 2;
            if n < STEP * 16 {
                panic!("no address space for the fencing allocator");
            }
        };
        NEXT.store(p as usize, SeqCst);
        SIZE.store(n, SeqCst);
        BASE.store(p as usize, SeqCst);
        let a = Action { handler: died as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        for s in [11, 7] {
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

pub struct Fence;

fn up(n: usize) -> usize {
    n.div_ceil(PAGE) * PAGE
}

/// pages of a block, without the guard page
fn span(l: &Layout) -> usize {
    up(l.size().max(1))
}

unsafe impl GlobalAlloc for Fence {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let m = MODE.try_with(|c| c.get()).unwrap_or(0);
        if m == 0 || l.align() > PAGE || l.size() > STEP / 4 {
            return System.alloc(l);
        }
        let need = span(&l) + PAGE;
        let mut at = AT.with(|c| c.get());
        if at + need > END.with(|c| c.get()) {
            at = NEXT.fetch_add(STEP, SeqCst);
            if at + STEP > BASE.load(Relaxed) + SIZE.load(Relaxed) {
                return System.alloc(l);
            }
            // the first page stays inaccessible
            at += PAGE;
            END.with(|c| c.set(at - PAGE + STEP));
        }
        AT.with(|c| c.set(at + need));
        if mmap(at as *mut u8, span(&l), RW, ANON | FIXED, -1, 0) as isize == -1 {
            return std::ptr::null_mut();
        }
        BLOCKS.fetch_add(1, Relaxed);
        let p = if m == 1 { (at + span(&l) - l.size()) & !(l.align() - 1) } else { at };
        // whatever was not asked for must not look like zero
        std::ptr::write_bytes(at as *mut u8, 0xA7, span(&l));
        p as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        let base = BASE.load(Relaxed);
        if base == 0 || a < base || a >= base + SIZE.load(Relaxed) {
            return System.dealloc(p, l);
        }
        // the address is never handed out again: later accesses fault
        let q = a & !(PAGE - 1);
        mmap(q as *mut u8, span(&l), NONE, ANON | FIXED, -1, 0);
    }
}
