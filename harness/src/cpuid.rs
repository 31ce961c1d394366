//! A process that is told its processor has no AVX2: CPUID faulting (arch_prctl) is switched on and the instruction is
//! answered by a signal handler from values read before, with the AVX2 bit cleared. Affects this process only.
use std::arch::x86_64::__cpuid_count;
use std::sync::OnceLock;

extern "C" {
    fn syscall(n: i64, a: i64, b: i64) -> i64;
    fn sigaction(sig: i32, act: *const Act, old: *mut Act) -> i32;
}
#[repr(C)]
struct Act {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const ARCH_PRCTL: i64 = 158;
const ARCH_SET_CPUID: i64 = 0x1012;
const SA_SIGINFO: i32 = 4;
const SA_NODEFER: i32 = 0x4000_0000;

type Leaf = (u32, u32, [u32; 4]);
static LEAVES: OnceLock<Vec<Leaf>> = OnceLock::new();

unsafe extern "C" fn on_segv(_: i32, _: *mut u8, uc: *mut u64) {
    let g = uc.add(5); // gregs
    let rip = *g.add(16) as *const u8;
    if !(*rip == 0x0F && *rip.add(1) == 0xA2) {
        // a real fault: let it happen again without this handler
        let dfl = Act { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
        sigaction(11, &dfl, std::ptr::null_mut());
        return;
    }
    let (leaf, sub) = (*g.add(13) as u32, *g.add(14) as u32);
    let r = LEAVES
        .get()
        .and_then(|t| t.iter().find(|l| l.0 == leaf && l.1 == sub).or_else(|| t.iter().find(|l| l.0 == leaf)))
        .map_or([0; 4], |l| l.2);
    *g.add(13) = r[0] as u64;
    *g.add(11) = r[1] as u64;
    *g.add(14) = r[2] as u64;
    *g.add(12) = r[3] as u64;
    *g.add(16) += 2;
}

/// false: this machine or kernel does not offer it
pub fn hide_avx2() -> bool {
    let mut v: Vec<Leaf> = vec![];
    for leaf in (0..0x20).chain(0x8000_0000..0x8000_0009u32) {
        for sub in 0..4 {
            let r = __cpuid_count(leaf, sub);
            let mut r = [r.eax, r.ebx, r.ecx, r.edx];
            if leaf == 7 && sub == 0 {
                r[1] &= !(1 << 5);
            }
            v.push((leaf, sub, r));
        }
    }
    let _ = LEAVES.set(v);
    unsafe {
        let a = Act { handler: on_segv as *const () as usize, mask: [0; 16], flags: SA_SIGINFO | SA_NODEFER, restorer: 0 };
        if sigaction(11, &a, std::ptr::null_mut()) != 0 || syscall(ARCH_PRCTL, ARCH_SET_CPUID, 0) != 0 {
            return false;
        }
    }
    !std::is_x86_feature_detected!("avx2")
}
