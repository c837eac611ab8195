//! The simulated allocator: the seam through which allocation failures are injected and every
//! block the code under test obtains is accounted for.
//!
//! Every block has a header (size, alignment, tag of the operation that requested it) and a
//! trailing canary. Requests of operations under test are numbered per tag and can be made to fail.

use rayon_core::sim;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;
pub const TAGS: usize = 40;

#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const ZI: AtomicI64 = AtomicI64::new(0);
pub static REQUESTS: [AtomicU64; TAGS] = [Z; TAGS];
pub static FAILED: [AtomicU64; TAGS] = [Z; TAGS];
pub static FAIL_FROM: [AtomicU64; TAGS] = [Z; TAGS];
pub static FAIL_TO: [AtomicU64; TAGS] = [Z; TAGS];
pub static LIVE: [AtomicI64; TAGS] = [ZI; TAGS];
pub static LIVE_BYTES: [AtomicI64; TAGS] = [ZI; TAGS];
pub static PEAK_BYTES: [AtomicI64; TAGS] = [ZI; TAGS];
/// First misuse: kind, and two values.
pub static ERR: AtomicU64 = AtomicU64::new(0);
pub static ERR_A: AtomicU64 = AtomicU64::new(0);
pub static ERR_B: AtomicU64 = AtomicU64::new(0);

const MAGIC: u64 = 0x51A1_10C8_B10C_0001;
const FREED: u64 = 0xDEAD_10C8_B10C_DEAD;
/// No operation under test needs anywhere near as much memory.
const LIMIT: i64 = 1 << 30;
const CANARY: u64 = 0xCA5A_71E5_0F7E_5AFE;

#[repr(C)]
struct Header {
    size: u64,
    align: u32,
    tag: u32,
    magic: u64,
    pad: u64,
}

fn err(kind: u64, a: u64, b: u64) {
    if ERR.compare_exchange(0, kind, Relaxed, Relaxed).is_ok() {
        ERR_A.store(a, Relaxed);
        ERR_B.store(b, Relaxed);
    }
}
pub fn take_err() -> Option<String> {
    let a = ERR_A.load(Relaxed);
    let b = ERR_B.load(Relaxed);
    match ERR.swap(0, Relaxed) {
        0 => None,
        1 => Some(format!("block of {a} bytes released with size {b}")),
        2 => Some(format!("block aligned to {a} released with alignment {b}")),
        3 => Some(format!("write past the end of a block of {a} bytes")),
        4 => Some("block released twice".to_string()),
        5 => Some("release of a pointer that is not a block".to_string()),
        _ => Some("zero-size allocation request".to_string()),
    }
}
/// Resets the accounting of `tag` for a new operation.
pub fn reset(tag: u32) {
    let t = tag as usize;
    REQUESTS[t].store(0, Relaxed);
    FAILED[t].store(0, Relaxed);
    FAIL_FROM[t].store(0, Relaxed);
    FAIL_TO[t].store(0, Relaxed);
    LIVE[t].store(0, Relaxed);
    LIVE_BYTES[t].store(0, Relaxed);
    PEAK_BYTES[t].store(0, Relaxed);
}
/// Requests number `from..to` (1-based) of `tag` fail.
pub fn fail(tag: u32, from: u64, to: u64) {
    FAIL_FROM[tag as usize].store(from, Relaxed);
    FAIL_TO[tag as usize].store(to, Relaxed);
}

/// Offset of a block and alignment of what surrounds it: blocks are aligned as requested, but never
/// any better.
fn place(align: usize) -> (usize, usize) {
    let double = 2 * align;
    (32usize.next_multiple_of(double) + align, double)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let mut tag = sim::tag();
        if tag != 0 && std::thread::panicking() {
            tag = 0;
        }
        if tag != 0 {
            let t = tag as usize % TAGS;
            let n = REQUESTS[t].fetch_add(1, Relaxed) + 1;
            if n >= FAIL_FROM[t].load(Relaxed) && n < FAIL_TO[t].load(Relaxed) {
                FAILED[t].fetch_add(1, Relaxed);
                return std::ptr::null_mut();
            }
            if LIVE_BYTES[t].load(Relaxed) + layout.size() as i64 > LIMIT {
                return std::ptr::null_mut();
            }
        }
        let (off, align) = place(layout.align());
        let total = Layout::from_size_align_unchecked(off + layout.size() + 8, align);
        let base = System.alloc(total);
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        (p.sub(32) as *mut Header).write_unaligned(Header {
            size: layout.size() as u64,
            align: layout.align() as u32,
            tag,
            magic: MAGIC,
            pad: 0,
        });
        (p.add(layout.size()) as *mut u64).write_unaligned(CANARY);
        if tag != 0 {
            let t = tag as usize % TAGS;
            if layout.size() == 0 {
                err(6, 0, 0);
            }
            LIVE[t].fetch_add(1, Relaxed);
            let b = LIVE_BYTES[t].fetch_add(layout.size() as i64, Relaxed) + layout.size() as i64;
            PEAK_BYTES[t].fetch_max(b, Relaxed);
            std::ptr::write_bytes(p, 0xA5, layout.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let h = (p.sub(32) as *const Header).read_unaligned();
        if h.magic == FREED {
            return err(4, 0, 0);
        }
        if h.magic != MAGIC {
            return err(5, 0, 0);
        }
        if h.size != layout.size() as u64 {
            err(1, h.size, layout.size() as u64);
        } else if h.align != layout.align() as u32 {
            err(2, h.align as u64, layout.align() as u64);
        }
        if (p.add(h.size as usize) as *const u64).read_unaligned() != CANARY {
            err(3, h.size, 0);
        }
        if h.tag != 0 {
            let t = h.tag as usize % TAGS;
            LIVE[t].fetch_sub(1, Relaxed);
            LIVE_BYTES[t].fetch_sub(h.size as i64, Relaxed);
            std::ptr::write_bytes(p, 0xDD, h.size as usize);
        }
        (p.sub(32) as *mut Header).write_unaligned(Header { magic: FREED, ..h });
        let (off, align) = place(h.align as usize);
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(off + h.size as usize + 8, align));
    }
}
