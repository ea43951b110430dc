//! The global allocator of the harness. Normally it forwards to the system allocator. For the
//! current thread it can also
//! - count allocations and bytes, and end the process when a work budget is exceeded (C04), or
//! - serve every allocation from an "electric fence" arena (C18): each allocation gets pages of its
//!   own next to an inaccessible guard page, is filled with a poison byte, becomes inaccessible
//!   when freed, and is checked for the GlobalAlloc contract (layout at release, double release,
//!   zero-sized requests).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

pub struct VpAlloc;

#[cfg(not(feature = "plain_alloc"))]
#[global_allocator]
static GLOBAL: VpAlloc = VpAlloc;

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIMIT_COUNT: Cell<u64> = const { Cell::new(u64::MAX) };
    static LIMIT_BYTES: Cell<u64> = const { Cell::new(u64::MAX) };
    static POISON: Cell<u8> = const { Cell::new(0) };
    static FILL: Cell<u8> = const { Cell::new(0) };
    static AT_START: Cell<bool> = const { Cell::new(false) };
}

pub const EXIT_WORK_BOUND: i32 = 77;
pub const EXIT_ALLOC_VIOLATION: i32 = 78;

const PAGE: usize = 4096;
const ARENA_PAGES: usize = 1 << 20;

#[derive(Clone, Copy)]
#[repr(C)]
struct Meta {
    state: u8, // 0 never used, 1 live, 2 freed
    align_log: u8,
    poison: u8,
    pages: u32,
    size: usize,
    ptr: usize,
}

static ARENA: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static META: AtomicPtr<Meta> = AtomicPtr::new(std::ptr::null_mut());
static NEXT_PAGE: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);

fn die(code: i32, msg: &str) -> ! {
    MODE.with(|m| m.set(0));
    crate::engine::shared_note(msg.as_bytes());
    unsafe {
        libc::write(2, msg.as_ptr() as *const libc::c_void, msg.len());
        libc::write(2, b"\n".as_ptr() as *const libc::c_void, 1);
        libc::_exit(code)
    }
}

fn violation(msg: std::fmt::Arguments) -> ! {
    MODE.with(|m| m.set(0));
    let s = std::fmt::format(msg);
    die(EXIT_ALLOC_VIOLATION, &s)
}

unsafe fn arena_init() {
    if ARENA.load(Ordering::Relaxed).is_null() {
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let a = libc::mmap(std::ptr::null_mut(), ARENA_PAGES * PAGE, libc::PROT_NONE, flags, -1, 0);
        let m = libc::mmap(
            std::ptr::null_mut(),
            ARENA_PAGES * std::mem::size_of::<Meta>(),
            libc::PROT_READ | libc::PROT_WRITE,
            flags,
            -1,
            0,
        );
        if a == libc::MAP_FAILED || m == libc::MAP_FAILED {
            die(3, "cannot map the guard arena");
        }
        META.store(m as *mut Meta, Ordering::Relaxed);
        ARENA.store(a as *mut u8, Ordering::Relaxed);
    }
}

#[inline]
fn in_arena(p: *mut u8) -> bool {
    let a = ARENA.load(Ordering::Relaxed) as usize;
    a != 0 && (p as usize) >= a && (p as usize) < a + ARENA_PAGES * PAGE
}

unsafe fn guard_alloc(layout: Layout) -> *mut u8 {
    if layout.size() == 0 {
        violation(format_args!("a zero-sized allocation was requested"));
    }
    let pages = layout.size().div_ceil(PAGE);
    if layout.align() > PAGE {
        return System.alloc(layout);
    }
    let first = NEXT_PAGE.load(Ordering::Relaxed) + 1;
    if first + pages + 1 >= ARENA_PAGES {
        return System.alloc(layout);
    }
    NEXT_PAGE.store(first + pages, Ordering::Relaxed);
    let base = ARENA.load(Ordering::Relaxed).add(first * PAGE);
    if libc::mprotect(base as *mut libc::c_void, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        // Out of mappings: not the code's fault.
        return System.alloc(layout);
    }
    std::ptr::write_bytes(base, POISON.with(|p| p.get()), pages * PAGE);
    let off = if AT_START.with(|a| a.get()) {
        0
    } else {
        (pages * PAGE - layout.size()) & !(layout.align() - 1)
    };
    let ptr = base.add(off);
    *META.load(Ordering::Relaxed).add(first) = Meta {
        state: 1,
        align_log: layout.align().trailing_zeros() as u8,
        poison: POISON.with(|p| p.get()),
        pages: pages as u32,
        size: layout.size(),
        ptr: ptr as usize,
    };
    LIVE.fetch_add(1, Ordering::Relaxed);
    TOTAL.fetch_add(1, Ordering::Relaxed);
    ptr
}

unsafe fn guard_dealloc(ptr: *mut u8, layout: Layout) {
    let arena = ARENA.load(Ordering::Relaxed);
    let page = (ptr as usize - arena as usize) / PAGE;
    let meta = META.load(Ordering::Relaxed).add(page);
    if (*meta).state == 2 && (*meta).ptr == ptr as usize {
        violation(format_args!("memory was released twice"));
    }
    if (*meta).state != 1 || (*meta).ptr != ptr as usize {
        violation(format_args!("a pointer that is not the start of an allocation was released"));
    }
    if (*meta).size != layout.size() || 1usize << (*meta).align_log != layout.align() {
        violation(format_args!(
            "memory of size {} align {} was released as size {} align {}",
            (*meta).size,
            1usize << (*meta).align_log,
            layout.size(),
            layout.align()
        ));
    }
    let base = arena.add(page * PAGE);
    let len = (*meta).pages as usize * PAGE;
    let poison = (*meta).poison;
    let start = ptr as usize - base as usize;
    for i in (0..start).chain(start + layout.size()..len) {
        if *base.add(i) != poison {
            violation(format_args!(
                "a byte outside an allocation of {} bytes was overwritten (offset {})",
                layout.size(),
                i as isize - start as isize
            ));
        }
    }
    (*meta).state = 2;
    libc::mprotect(base as *mut libc::c_void, len, libc::PROT_NONE);
    LIVE.fetch_sub(1, Ordering::Relaxed);
}

/// Small allocations are filled with a byte that differs from one to the next, so that what is read without
/// having been written shows.
#[inline]
unsafe fn filled(layout: Layout) -> *mut u8 {
    let p = System.alloc(layout);
    if layout.size() <= 256 && !p.is_null() {
        let b = FILL
            .try_with(|f| {
                f.set(f.get().wrapping_add(0x9b));
                f.get()
            })
            .unwrap_or(0x9b);
        std::ptr::write_bytes(p, b, layout.size());
    }
    p
}

unsafe impl GlobalAlloc for VpAlloc {
    #[inline]
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        match MODE.try_with(|m| m.get()).unwrap_or(0) {
            0 => filled(layout),
            1 => {
                let c = COUNT.with(|c| {
                    c.set(c.get() + 1);
                    c.get()
                });
                let b = BYTES.with(|b| {
                    b.set(b.get() + layout.size() as u64);
                    b.get()
                });
                if c > LIMIT_COUNT.with(|l| l.get()) || b > LIMIT_BYTES.with(|l| l.get()) {
                    die(EXIT_WORK_BOUND, "work bound exceeded: the number or size of allocations is out of proportion to the input");
                }
                filled(layout)
            }
            _ => guard_alloc(layout),
        }
    }
    #[inline]
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if in_arena(ptr) {
            guard_dealloc(ptr, layout)
        } else {
            System.dealloc(ptr, layout)
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if MODE.try_with(|m| m.get()).unwrap_or(0) == 0 {
            return System.alloc_zeroed(layout);
        }
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }
    #[inline]
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if MODE.try_with(|m| m.get()).unwrap_or(0) == 0 && !in_arena(ptr) {
            return System.realloc(ptr, layout, new_size);
        }
        let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        new
    }
}

pub fn reset_thread() {
    MODE.with(|m| m.set(0));
}

/// Runs `f` counting allocations; the process ends with EXIT_WORK_BOUND if the limits are exceeded.
pub fn counted<T>(limit_count: u64, limit_bytes: u64, f: impl FnOnce() -> T) -> (T, u64, u64) {
    COUNT.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    LIMIT_COUNT.with(|c| c.set(limit_count));
    LIMIT_BYTES.with(|c| c.set(limit_bytes));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            MODE.with(|m| m.set(0));
        }
    }
    let off = Off;
    MODE.with(|m| m.set(1));
    let r = f();
    drop(off);
    (r, COUNT.with(|c| c.get()), BYTES.with(|c| c.get()))
}

/// Starts using the guard arena for `guarded` sections on this thread.
pub fn guard_setup(poison: u8, at_start: bool) {
    unsafe { arena_init() };
    POISON.with(|p| p.set(poison));
    AT_START.with(|p| p.set(at_start));
}

pub fn guard_live() -> usize {
    LIVE.load(Ordering::Relaxed)
}
pub fn guard_total() -> usize {
    TOTAL.load(Ordering::Relaxed)
}

/// Makes the arena reusable. Only when nothing in it is live.
pub fn guard_reset() {
    unsafe {
        let used = NEXT_PAGE.load(Ordering::Relaxed);
        let arena = ARENA.load(Ordering::Relaxed);
        if used == 0 || arena.is_null() || LIVE.load(Ordering::Relaxed) != 0 {
            return;
        }
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED;
        libc::mmap(arena as *mut libc::c_void, (used + 2) * PAGE, libc::PROT_NONE, flags, -1, 0);
        std::ptr::write_bytes(META.load(Ordering::Relaxed), 0, used + 2);
        NEXT_PAGE.store(0, Ordering::Relaxed);
    }
}

/// Runs library code with every allocation guarded.
pub fn guarded<T>(f: impl FnOnce() -> T) -> T {
    struct Off(u8);
    impl Drop for Off {
        fn drop(&mut self) {
            MODE.with(|m| m.set(self.0));
        }
    }
    let off = Off(MODE.with(|m| m.replace(2)));
    let r = f();
    drop(off);
    r
}

/// Runs harness code inside a guarded section without guarding it.
pub fn unguarded<T>(f: impl FnOnce() -> T) -> T {
    struct Off(u8);
    impl Drop for Off {
        fn drop(&mut self) {
            MODE.with(|m| m.set(self.0));
        }
    }
    let off = Off(MODE.with(|m| m.replace(0)));
    let r = f();
    drop(off);
    r
}
