//! A global allocator that watches: it counts live blocks and bytes, and it fills fresh and
//! freed memory with patterns, so that a read of memory that was never written, or of memory
//! that was freed, shows up as a wrong value instead of passing by luck.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Watch;

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

pub fn live() -> (i64, i64) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
pub fn total() -> u64 {
    TOTAL.load(Relaxed)
}
/// Forgets the highest number of live bytes seen and starts from the present one.
pub fn restart_peak() {
    PEAK.store(BYTES.load(Relaxed), Relaxed);
}
/// The highest number of live bytes since `restart_peak`.
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
/// Number of blocks released with a size or alignment other than they were made with,
/// released twice, or written before their start or past their end.
pub fn bad() -> u64 {
    BAD.load(Relaxed)
}

const MAGIC: u64 = 0x57A7_C4ED_B10C_0000;
const TAIL: [u8; 8] = [0xE1, 0xE2, 0xE3, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8];

// layout of a block: [pad .. | magic u64 | size u64 | align u64 | guard u64] payload [tail 8]
const HEAD: usize = 32;

fn front(align: usize) -> usize {
    (HEAD + align - 1) / align * align
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let f = front(l.align());
        let outer = match Layout::from_size_align(f + l.size() + TAIL.len(), l.align().max(8)) {
            Ok(o) => o,
            Err(_) => return std::ptr::null_mut(),
        };
        let base = System.alloc(outer);
        if base.is_null() {
            return base;
        }
        let p = base.add(f);
        let h = p.sub(HEAD) as *mut u64;
        h.write_unaligned(MAGIC);
        h.add(1).write_unaligned(l.size() as u64);
        h.add(2).write_unaligned(l.align() as u64);
        h.add(3).write_unaligned(!MAGIC);
        std::ptr::write_bytes(p, 0xCD, l.size().min(1 << 16));
        std::ptr::copy_nonoverlapping(TAIL.as_ptr(), p.add(l.size()), TAIL.len());
        BLOCKS.fetch_add(1, Relaxed);
        let now = BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        if now > PEAK.load(Relaxed) {
            PEAK.fetch_max(now, Relaxed);
        }
        TOTAL.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut u64;
        let ok = h.read_unaligned() == MAGIC
            && h.add(1).read_unaligned() == l.size() as u64
            && h.add(2).read_unaligned() == l.align() as u64
            && h.add(3).read_unaligned() == !MAGIC;
        if !ok {
            BAD.fetch_add(1, Relaxed);
            // the block cannot be trusted: leave it alone
            return;
        }
        let mut tail = [0u8; 8];
        std::ptr::copy_nonoverlapping(p.add(l.size()), tail.as_mut_ptr(), 8);
        if tail != TAIL {
            BAD.fetch_add(1, Relaxed);
        }
        h.write_unaligned(0xDEAD);
        std::ptr::write_bytes(p, 0xDD, l.size().min(1 << 16));
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        let f = front(l.align());
        System.dealloc(
            p.sub(f),
            Layout::from_size_align_unchecked(f + l.size() + TAIL.len(), l.align().max(8)),
        );
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let nl = match Layout::from_size_align(new_size, l.align()) {
            Ok(n) => n,
            Err(_) => return std::ptr::null_mut(),
        };
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new_size));
            self.dealloc(p, l);
        }
        q
    }
}
