//! One encode request, run on a bare 32-bit big-endian MIPS that exists only in harness/src/mips.rs.
//! The request arrives as bytes (harness/src/spec.rs writes them), the result leaves through a few memory-mapped words.
#![no_std]
#![no_main]
extern crate alloc;
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use jpeg_encoder::*;

fn leave(kind: u32, ptr: *const u8, len: usize, a: u32, b: u32) -> ! {
    // the emulator's mailbox: five words, the last store ends the run
    for (i, v) in [ptr as u32, len as u32, a, b, kind].into_iter().enumerate() {
        unsafe { ((0xF000_0000u32 + 4 * i as u32) as *mut u32).write_volatile(v) };
    }
    loop {}
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    let (line, file) = i.location().map_or((0, ""), |l| (l.line(), l.file()));
    leave(255, file.as_ptr(), file.len(), line, 0)
}

static NEXT: AtomicUsize = AtomicUsize::new(0);
static END: AtomicUsize = AtomicUsize::new(0);
static FREE: [AtomicUsize; 32] = [const { AtomicUsize::new(0) }; 32];
/// powers of two, one free list for each
struct Pow;
unsafe impl GlobalAlloc for Pow {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let size = l.size().max(l.align()).max(16);
        if size > 1 << 28 {
            leave(254, core::ptr::null(), 0, l.size() as u32, 0)
        }
        let size = size.next_power_of_two();
        let list = &FREE[size.trailing_zeros() as usize];
        let head = list.load(Relaxed);
        if head != 0 {
            list.store(*(head as *const usize), Relaxed);
            return head as *mut u8;
        }
        // small blocks are aligned to their size, large ones to a page
        let align = size.min(4096);
        let p = (NEXT.load(Relaxed) + align - 1) & !(align - 1);
        if p + size > END.load(Relaxed) {
            leave(254, core::ptr::null(), 0, l.size() as u32, 0)
        }
        NEXT.store(p + size, Relaxed);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let size = l.size().max(l.align()).max(16).next_power_of_two();
        let list = &FREE[size.trailing_zeros() as usize];
        *(p as *mut usize) = list.load(Relaxed);
        list.store(p as usize, Relaxed);
    }
}
#[global_allocator]
static A: Pow = Pow;

struct In(&'static [u8]);
impl In {
    fn n(&mut self, n: usize) -> &'static [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.n(1)[0]
    }
    fn u16(&mut self) -> u16 {
        let a = self.n(2);
        a[0] as u16 * 256 + a[1] as u16
    }
    fn u32(&mut self) -> usize {
        self.u16() as usize * 65536 + self.u16() as usize
    }
    fn qt(&mut self) -> QuantizationTableType {
        use QuantizationTableType::*;
        match self.u8() {
            0 => Default,
            1 => Flat,
            2 => CustomMsSsim,
            3 => CustomPsnrHvs,
            4 => ImageMagick,
            5 => KleinSilversteinCarney,
            6 => DentalXRays,
            7 => VisualDetectionModel,
            8 => ImprovedDetectionModel,
            _ => {
                let mut t = [0; 64];
                for v in &mut t {
                    *v = self.u16();
                }
                Custom(Box::new(t))
            }
        }
    }
}

struct Planes {
    t: JpegColorType,
    n: usize,
    w: u16,
    h: u16,
    data: &'static [u8],
}
impl ImageBuffer for Planes {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.t
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        let (w, h) = (self.w as usize, self.h as usize);
        for (k, v) in b.iter_mut().take(self.n).enumerate() {
            v.extend_from_slice(&self.data[k * w * h + y as usize * w..][..w]);
        }
    }
}

struct Dyn<'a>(&'a mut dyn JfifWrite);
impl JfifWrite for Dyn<'_> {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        self.0.write_all(b)
    }
}

fn run(mut i: In, out: &mut Vec<u8>) -> Result<(), EncodingError> {
    let ct = i.u8();
    let (w, h) = (i.u16(), i.u16());
    let color = [
        ColorType::Luma, ColorType::Rgb, ColorType::Rgba, ColorType::Bgr, ColorType::Bgra, ColorType::Ycbcr, ColorType::Cmyk, ColorType::CmykAsYcck, ColorType::Ycck,
    ][ct as usize];
    // a Vec as the destination itself, or behind another writer
    if i.u8() == 1 {
        let e = Encoder::new(out, i.u8());
        go(i, e, ct, w, h, color)
    } else {
        let e = Encoder::new(Dyn(out), i.u8());
        go(i, e, ct, w, h, color)
    }
}

fn go<W: JfifWrite>(mut i: In, mut e: Encoder<W>, ct: u8, w: u16, h: u16, color: ColorType) -> Result<(), EncodingError> {
    match i.u8() {
        1 => e.set_density(Density::Inch { x: i.u16(), y: i.u16() }),
        2 => e.set_density(Density::Centimeter { x: i.u16(), y: i.u16() }),
        _ => {
            i.u32();
        }
    }
    use SamplingFactor::*;
    match i.u8() {
        255 => {}
        s => e.set_sampling_factor(
            [
                F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2, R_4_2_0, R_4_2_1, R_4_1_1, R_4_1_0,
            ][s as usize],
        ),
    }
    if i.u8() == 1 {
        e.set_quantization_tables(i.qt(), i.qt());
    }
    match i.u8() {
        0 => {}
        255 => e.set_progressive(true),
        n => e.set_progressive_scans(n),
    }
    match i.u16() {
        0 => {}
        n => e.set_restart_interval(n),
    }
    if i.u8() == 1 {
        e.set_optimized_huffman_tables(true);
    }
    for _ in 0..i.u16() {
        let nr = i.u8();
        let len = i.u32();
        e.add_app_segment(nr, i.n(len))?;
    }
    if i.u8() == 1 {
        let len = i.u32();
        e.add_icc_profile(i.n(len))?;
    }
    let planes = i.u8() == 1;
    let len = i.u32();
    let data = i.n(len);
    if planes {
        let (t, n) = match ct {
            0 => (JpegColorType::Luma, 1),
            6 => (JpegColorType::Cmyk, 4),
            7 | 8 => (JpegColorType::Ycck, 4),
            _ => (JpegColorType::Ycbcr, 3),
        };
        e.encode_image(Planes { t, n, w, h, data })
    } else {
        e.encode(data, w, h, color)
    }
}

/// called by the emulator with the request's place and the heap's
#[no_mangle]
pub extern "C" fn __start(ptr: *const u8, len: usize, heap: usize, end: usize) -> ! {
    NEXT.store(heap, Relaxed);
    END.store(end, Relaxed);
    let mut i = In(unsafe { core::slice::from_raw_parts(ptr, len) });
    let cap = i.u32();
    let prefix = i.u8() as usize;
    let mut out = Vec::with_capacity(cap);
    out.extend_from_slice(&[9u8; 10][..prefix]);
    let r = run(i, &mut out);
    let (kind, a, b) = match r {
        Ok(()) => (0, 0, 0),
        Err(EncodingError::InvalidAppSegment(n)) => (1, n as u32, 0),
        Err(EncodingError::AppSegmentTooLarge(n)) => (2, n as u32, 0),
        Err(EncodingError::IccTooLarge(n)) => (3, n as u32, 0),
        Err(EncodingError::BadImageData { length, .. }) => (4, length as u32, 0),
        Err(EncodingError::ZeroImageDimensions { width, height }) => (5, width as u32, height as u32),
        _ => (6, 0, 0),
    };
    leave(kind, out.as_ptr(), out.len(), a, b)
}
