//! Global allocator of the checker. It keeps a header and a trailing canary around every block, can
//! fill fresh (not zero-requested) blocks with a chosen pattern, can put blocks between inaccessible
//! pages, and verifies on release that a block is given back with the layout it was requested with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub struct Guard;

#[derive(Clone, Copy, PartialEq)]
#[repr(u64)]
enum Home {
    Heap = 0x4845_4150_4845_4150,
    Map = 0x4d41_5050_4d41_5050,
}
const CANARY: [u8; 16] = *b"\xc3\x5a\x91\x0e\xd7\x2b\xfa\x68\x3c\xb5\x16\x9d\x47\xe0\x8f\x21";
const PAGE: usize = 4096;

thread_local! {
    static FILL: Cell<u16> = const { Cell::new(0) };
    static MAPPED: Cell<bool> = const { Cell::new(false) };
}
static CHECK: AtomicBool = AtomicBool::new(false);
pub static MAPS: AtomicU64 = AtomicU64::new(0);
pub static CHECKED: AtomicU64 = AtomicU64::new(0);

/// Fill blocks allocated by this thread with the byte (None: leave them alone).
pub fn fill(p: Option<u8>) {
    FILL.with(|f| f.set(p.map_or(0, |b| 0x100 | b as u16)));
}
/// Put byte buffers and large blocks allocated by this thread between inaccessible pages.
pub fn mapped(on: bool) {
    MAPPED.with(|f| f.set(on));
}
/// Abort when a block is released with a wrong layout or with a damaged canary.
pub fn check(on: bool) {
    CHECK.store(on, Ordering::SeqCst);
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn madvise(a: *mut u8, l: usize, k: i32) -> i32;
    fn open(p: *const i8, f: i32, ...) -> i32;
    fn pread(fd: i32, p: *mut u8, n: usize, o: i64) -> isize;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn abort() -> !;
}
const BIG: usize = 1 << 18;
/// Released large blocks, emptied, kept for reuse (base address, length).
struct Pool(std::cell::UnsafeCell<[(u64, u64); 512]>);
unsafe impl Sync for Pool {}
static POOL: Pool = Pool(std::cell::UnsafeCell::new([(0, 0); 512]));
static PAGEMAP: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
fn locked<T>(f: impl FnOnce(&mut [(u64, u64); 512]) -> T) -> T {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *POOL.0.get() });
    LOCK.store(false, Ordering::Release);
    r
}
/// Zeroed pages.
unsafe fn big_get(total: usize) -> *mut u8 {
    let hit = locked(|v| v.iter_mut().find(|x| x.1 == total as u64).map(|x| std::mem::take(x).0));
    if let Some(b) = hit {
        return b as *mut u8;
    }
    let b = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
    if b as isize == -1 {
        return std::ptr::null_mut();
    }
    madvise(b, total, 15); // small pages only
    b
}
unsafe fn big_put(b: *mut u8, total: usize) {
    // clear what was written (most pages of a trace table never are)
    if total <= 1 << 23 {
        let n = total / PAGE;
        let mut map = [1u64 << 63; 2048];
        let mut fd = PAGEMAP.load(Ordering::Relaxed);
        if fd == 0 {
            fd = open(b"/proc/self/pagemap\0".as_ptr() as *const i8, 0) as i64 + 1;
            PAGEMAP.store(fd, Ordering::Relaxed);
        }
        if fd <= 0 || pread(fd as i32 - 1, map.as_mut_ptr() as *mut u8, n * 8, (b as u64 / PAGE as u64 * 8) as i64) != (n * 8) as isize {
            map = [1u64 << 63; 2048];
        }
        for k in 0..n {
            if map[k] >> 62 == 0 {
                continue; // neither present nor swapped out
            }
            let w = std::slice::from_raw_parts(b.add(k * PAGE) as *const u64, PAGE / 8);
            if w.iter().fold(0, |a, x| a | x) != 0 {
                b.add(k * PAGE).write_bytes(0, PAGE);
            }
        }
    } else {
        madvise(b, total, 4);
    }
    let kept = locked(|v| match v.iter_mut().find(|x| x.1 == 0) {
        Some(x) => {
            *x = (b as u64, total as u64);
            true
        }
        None => false,
    });
    if !kept {
        munmap(b, total);
    }
}
fn die(m: &str) -> ! {
    unsafe {
        write(2, m.as_ptr(), m.len());
        abort()
    }
}
/// header words before the block: size, align, home
#[inline]
unsafe fn head(p: *mut u8) -> *mut u64 {
    (p as *mut u64).sub(3)
}
#[inline]
fn prefix(l: &Layout) -> usize {
    l.align().max(32)
}

impl Guard {
    #[inline]
    unsafe fn finish(&self, p: *mut u8, l: &Layout) {
        let h = head(p);
        h.write(l.size() as u64);
        h.add(1).write(l.align() as u64);
        h.add(2).write(Home::Heap as u64);
        p.add(l.size()).copy_from_nonoverlapping(CANARY.as_ptr(), 16);
    }
    unsafe fn map(&self, l: &Layout) -> *mut u8 {
        // one extra page in front carries the header's copy; the block ends at the rear guard page
        let body = (l.size() + PAGE - 1) / PAGE * PAGE;
        let total = body + 3 * PAGE;
        let b = mmap(std::ptr::null_mut(), total, 0, 0x22, -1, 0);
        if b as isize == -1 {
            return std::ptr::null_mut();
        }
        mprotect(b, PAGE, 3);
        mprotect(b.add(2 * PAGE), body, 3);
        let mut off = body - l.size();
        off -= off % l.align();
        let p = b.add(2 * PAGE + off);
        let h = b as *mut u64;
        h.write(l.size() as u64);
        h.add(1).write(l.align() as u64);
        h.add(2).write(Home::Map as u64);
        h.add(3).write(p as u64);
        MAPS.fetch_add(1, Ordering::Relaxed);
        p
    }
    #[inline]
    fn want_map(l: &Layout) -> bool {
        MAPPED.with(|m| m.get()) && (l.align() == 1 || l.size() >= 1 << 16) && l.align() <= PAGE
    }
}
/// base of a mapped block, if `p` is one: the registry is a small open-addressed table
static TABLE: [AtomicU64; 4096] = [const { AtomicU64::new(0) }; 4096];
fn hash(p: u64) -> usize {
    ((p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as usize & 4095
}
fn put(p: u64) -> bool {
    let mut k = hash(p);
    for _ in 0..64 {
        let o = TABLE[k].load(Ordering::Relaxed);
        if o <= 1 && TABLE[k].compare_exchange(o, p, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            return true;
        }
        k = (k + 1) & 4095;
    }
    false
}
static ANY: AtomicBool = AtomicBool::new(false);
fn take(p: u64) -> bool {
    if !ANY.load(Ordering::Relaxed) {
        return false;
    }
    let mut k = hash(p);
    for _ in 0..64 {
        match TABLE[k].load(Ordering::Relaxed) {
            0 => return false,
            x if x == p => {
                TABLE[k].store(1, Ordering::SeqCst);
                return true;
            }
            _ => k = (k + 1) & 4095,
        }
    }
    false
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let f = FILL.with(|f| f.get());
        let p = self.get(&l, false);
        if f != 0 && !p.is_null() {
            p.write_bytes(f as u8, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.get(&l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if take(p as u64) {
            let body = (l.size() + PAGE - 1) / PAGE * PAGE;
            let mut off = body - l.size();
            off -= off % l.align();
            let b = p.sub(2 * PAGE + off);
            if (p as usize - off) % PAGE != 0 {
                die("GUARD: a block is released with another layout than it was allocated with\n");
            }
            let h = b as *mut u64;
            if h.read() != l.size() as u64 || h.add(1).read() != l.align() as u64 {
                die("GUARD: a block is released with another layout than it was allocated with\n");
            }
            munmap(b, body + 3 * PAGE);
            return;
        }
        let h = head(p);
        let (size, align, home) = (h.read(), h.add(1).read(), h.add(2).read());
        if CHECK.load(Ordering::Relaxed) {
            CHECKED.fetch_add(1, Ordering::Relaxed);
            if home != Home::Heap as u64 {
                die("GUARD: bytes before a block were overwritten, or a block is released twice\n");
            }
            if size != l.size() as u64 || align != l.align() as u64 {
                die("GUARD: a block is released with another layout than it was allocated with\n");
            }
            let mut c = [0u8; 16];
            c.as_mut_ptr().copy_from_nonoverlapping(p.add(l.size()), 16);
            if c != CANARY {
                die("GUARD: bytes after a block were overwritten\n");
            }
        }
        h.add(2).write(0);
        let real = Layout::from_size_align_unchecked(size as usize, align as usize);
        let pre = prefix(&real);
        if real.size() >= BIG && pre <= PAGE {
            big_put(p.sub(pre), (pre + real.size() + 16 + PAGE - 1) / PAGE * PAGE);
            return;
        }
        System.dealloc(p.sub(pre), Layout::from_size_align_unchecked(pre + real.size() + 16, pre));
    }
}
impl Guard {
    #[inline]
    unsafe fn get(&self, l: &Layout, zero: bool) -> *mut u8 {
        if Self::want_map(l) {
            let p = self.map(l);
            if !p.is_null() {
                ANY.store(true, Ordering::SeqCst);
                if put(p as u64) {
                    return p; // fresh mappings are zero
                }
                die("GUARD: too many mapped blocks\n");
            }
            return p;
        }
        let pre = prefix(l);
        let big = Layout::from_size_align_unchecked(pre + l.size() + 16, pre);
        let b = if l.size() >= BIG && pre <= PAGE {
            big_get((pre + l.size() + 16 + PAGE - 1) / PAGE * PAGE)
        } else if zero { System.alloc_zeroed(big)
        } else {
            System.alloc(big)
        };
        if b.is_null() {
            return b;
        }
        let p = b.add(pre);
        self.finish(p, l);
        p
    }
}
