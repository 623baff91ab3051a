//! Interposed allocator: fills fresh memory with garbage, injects failures, checks layouts and
//! red zones, and scans memory for registered secrets at the moment it is released.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

/// 0 leave as is, 1 zeros, 2 ones, 3 0xAA, 4 pseudo random, 5 looks like valid small points
pub static FILL: AtomicUsize = AtomicUsize::new(0);
/// when >= 0: number of allocations still allowed before one fails
pub static FAIL_IN: AtomicI64 = AtomicI64::new(-1);
/// only allocations of at least this size are counted for failing
pub static FAIL_MIN: AtomicUsize = AtomicUsize::new(0);
/// keep failing after the first failure
pub static FAIL_STICKY: AtomicBool = AtomicBool::new(false);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
pub static COUNT: AtomicBool = AtomicBool::new(false);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BAD_LAYOUT: AtomicU64 = AtomicU64::new(0);
pub static BAD_CANARY: AtomicU64 = AtomicU64::new(0);
/// registered secret (4 needles of 8 bytes) looked for in released memory
pub static NEEDLES: [AtomicU64; 4] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
pub static SCAN: AtomicBool = AtomicBool::new(false);
pub static SCANNED: AtomicU64 = AtomicU64::new(0);
pub static SCANNED_BYTES: AtomicU64 = AtomicU64::new(0);
pub static FOUND: AtomicU64 = AtomicU64::new(0);
/// one block whose bytes are compared, at release, with a snapshot taken before the wipe
pub static WATCH: AtomicUsize = AtomicUsize::new(0);
pub static WATCH_LEN: AtomicUsize = AtomicUsize::new(0);
pub const SNAP_MAX: usize = 8192;
pub static SNAP: [std::sync::atomic::AtomicU8; SNAP_MAX] = [const { std::sync::atomic::AtomicU8::new(0) }; SNAP_MAX];
/// secret bytes still in place at release; u64::MAX: the block has not been released
pub static LEFT: AtomicU64 = AtomicU64::new(u64::MAX);
pub unsafe fn watch(block: *const u8, len: usize) {
    assert!(len <= SNAP_MAX);
    for i in 0..len {
        SNAP[i].store(std::ptr::read_volatile(block.add(i)), Relaxed);
    }
    LEFT.store(u64::MAX, SeqCst);
    FOUND.store(0, SeqCst);
    WATCH_LEN.store(len, SeqCst);
    WATCH.store(block as usize, SeqCst);
}
/// nonzero snapshot bytes that are still there, within the marked secret positions
pub unsafe fn left(block: *const u8, len: usize) -> u64 {
    let mut n = 0;
    for i in 0..len {
        let s = SNAP[i].load(Relaxed);
        if s != 0 && std::ptr::read_volatile(block.add(i)) == s {
            n += 1;
        }
    }
    n
}
static RNG: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def1);

pub struct Mem;
const MAGIC: u64 = 0x5ca1_ab1e_0ddb_a115;
const TAIL: usize = 16;
const CANARY: u8 = 0xC5;

fn head(l: &Layout) -> usize {
    let a = l.align().max(8);
    (24 + a - 1) / a * a
}
fn raw_layout(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(head(l) + l.size() + TAIL, l.align().max(8)) }
}
pub fn needles_from(bytes: &[u8; 32]) {
    for i in 0..4 {
        let mut b = [0u8; 8];
        b.copy_from_slice(&bytes[8 * i..8 * i + 8]);
        NEEDLES[i].store(u64::from_le_bytes(b), SeqCst);
    }
}
/// number of secret fragments (4-byte groups) in a region; the secret is looked for in its
/// in-memory and big-endian byte orders
pub unsafe fn scan(p: *const u8, n: usize, needles: &[[u8; 4]]) -> u64 {
    let mut hits = 0;
    if n < 4 {
        return 0;
    }
    for off in 0..=n - 4 {
        let mut w = [0u8; 4];
        for i in 0..4 {
            w[i] = std::ptr::read_volatile(p.add(off + i));
        }
        if needles.iter().any(|x| *x == w) {
            hits += 1;
        }
    }
    hits
}
pub fn needles() -> [[u8; 4]; 16] {
    let mut out = [[0u8; 4]; 16];
    for i in 0..4 {
        let b = NEEDLES[i].load(Relaxed).to_le_bytes();
        out[4 * i] = [b[0], b[1], b[2], b[3]];
        out[4 * i + 1] = [b[4], b[5], b[6], b[7]];
        out[4 * i + 2] = [b[3], b[2], b[1], b[0]];
        out[4 * i + 3] = [b[7], b[6], b[5], b[4]];
    }
    out
}

unsafe impl GlobalAlloc for Mem {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if COUNT.load(Relaxed) {
            ALLOCS.fetch_add(1, Relaxed);
        }
        if FAIL_IN.load(Relaxed) >= 0 && l.size() >= FAIL_MIN.load(Relaxed) {
            let left = FAIL_IN.fetch_sub(1, SeqCst);
            if left == 0 {
                FAILED.fetch_add(1, SeqCst);
                if FAIL_STICKY.load(SeqCst) {
                    FAIL_IN.store(0, SeqCst);
                }
                return std::ptr::null_mut();
            }
        }
        let p = System.alloc(raw_layout(&l));
        if p.is_null() {
            return p;
        }
        let u = p.add(head(&l));
        (u.sub(8) as *mut u64).write_unaligned(MAGIC ^ l.size() as u64);
        (u.sub(16) as *mut u64).write_unaligned(l.size() as u64);
        (u.sub(24) as *mut u64).write_unaligned(l.align() as u64);
        for i in 0..TAIL {
            *u.add(l.size() + i) = CANARY;
        }
        match FILL.load(Relaxed) {
            0 => {}
            1 => std::ptr::write_bytes(u, 0, l.size()),
            2 => std::ptr::write_bytes(u, 0xff, l.size()),
            3 => std::ptr::write_bytes(u, 0xaa, l.size()),
            4 => {
                let mut x = RNG.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed) | 1;
                for i in 0..l.size() {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    *u.add(i) = x as u8;
                }
            }
            _ => {
                for i in 0..l.size() {
                    *u.add(i) = if i % 4 == 0 { (i / 4) as u8 & 1 } else { 0 };
                }
            }
        }
        LIVE.fetch_add(1, Relaxed);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let (m, sz, al) = ((u.sub(8) as *mut u64).read_unaligned(), (u.sub(16) as *mut u64).read_unaligned(), (u.sub(24) as *mut u64).read_unaligned());
        if m != MAGIC ^ l.size() as u64 || sz != l.size() as u64 || al != l.align() as u64 {
            BAD_LAYOUT.fetch_add(1, SeqCst);
            return; // cannot be released safely
        }
        for i in 0..TAIL {
            if *u.add(l.size() + i) != CANARY {
                BAD_CANARY.fetch_add(1, SeqCst);
                break;
            }
        }
        if SCAN.load(Relaxed) {
            SCANNED.fetch_add(1, SeqCst);
            SCANNED_BYTES.fetch_add(l.size() as u64, SeqCst);
            let h = scan(u, l.size(), &needles());
            if h > 0 {
                FOUND.fetch_add(h, SeqCst);
            }
        }
        let w = WATCH.load(Relaxed);
        if w >= u as usize && w < u as usize + l.size().max(1) {
            let n = WATCH_LEN.load(SeqCst);
            LEFT.store(left(w as *const u8, n), SeqCst);
            FOUND.store(scan(w as *const u8, n, &needles()), SeqCst);
            SCANNED.fetch_add(1, SeqCst);
            WATCH.store(0, SeqCst);
        }
        (u.sub(8) as *mut u64).write_unaligned(0xdead);
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(u.sub(head(&l)), raw_layout(&l))
    }
}
/// memory errors the allocator noticed so far
pub fn errors() -> Option<String> {
    let (a, b) = (BAD_LAYOUT.load(SeqCst), BAD_CANARY.load(SeqCst));
    if a + b > 0 {
        Some(format!("{} releases with a wrong layout or pointer, {} overwritten red zones", a, b))
    } else {
        None
    }
}
