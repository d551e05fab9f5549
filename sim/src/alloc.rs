//! The simulated allocator. Inactive (everything goes to the system allocator) except in runs that
//! switch it on. Active, every block
//! * comes from a bump arena, is never reused before the end of the run and never grows in place;
//! * has exactly the requested alignment, not more;
//! * is surrounded by red zones, or by an inaccessible page right behind or right before it;
//! * is poisoned when allocated and when freed (freed blocks behind a guard page become inaccessible);
//! * is looked up with its layout when it is freed.
//!
//! Nothing here panics: the first broken rule is recorded and read by the run.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::{null_mut, NonNull};

pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

const ARENA: usize = 1 << 30;
const MAX_RECS: usize = 1 << 19;
const SLOTS: usize = 1 << 20;
const PAGE: usize = 4096;
const MAX_GUARDED: usize = 6000;
/// red zone before and behind a block
const RZ: usize = 32;

const F_FREED: u32 = 1;
const F_GUARD: u32 = 2;
const F_API: u32 = 4;

#[derive(Clone, Copy)]
#[repr(C)]
struct Rec {
    ptr: usize,
    size: usize,
    align: usize,
    flags: u32,
    epoch: u32,
    /// the accessible range around the block
    lo: usize,
    hi: usize,
    api_no: u64,
}

struct St {
    arena: usize,
    bump: usize,
    recs: *mut Rec,
    n: usize,
    slots: *mut u32,
    guarded: usize,
    seed: u64,
    poison: u8,
    epoch: u32,
    live: usize,
    fail_from: usize,
    failed: u64,
    peak_single: usize,
    bad: [u8; 200],
    bad_len: usize,
    allocs: u64,
    frees: u64,
    guard_allocs: u64,
    reallocs: u64,
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    /// > 0: the harness is working
    static HARNESS: Cell<u32> = const { Cell::new(0) };
    static IN_API: Cell<u64> = const { Cell::new(0) };
    static ST: Cell<*mut St> = const { Cell::new(null_mut()) };
    /// bytes alive that were asked for outside of the harness, while the meter runs
    static METER: Cell<Option<isize>> = const { Cell::new(None) };
}

fn meter(delta: isize) {
    let _ = METER.try_with(|m| {
        if let Some(n) = m.get() {
            if HARNESS.with(|h| h.get()) == 0 {
                m.set(Some(n + delta));
            }
        }
    });
}

/// Starts the meter: bytes alive outside of the harness, relative to now.
pub fn meter_start() {
    METER.with(|m| m.set(Some(0)));
}
pub fn metered() -> isize {
    METER.with(|m| m.get().unwrap_or(0))
}
pub fn meter_stop() {
    METER.with(|m| m.set(None));
}

static ARENA_RANGE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn map(len: usize) -> usize {
    // SAFETY: a fresh anonymous mapping.
    let p = unsafe {
        libc::mmap(
            null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    if p == libc::MAP_FAILED {
        0
    } else {
        p as usize
    }
}

fn state() -> Option<&'static mut St> {
    let p = ST.with(|s| s.get());
    // SAFETY: the state is owned by this thread, callers do not nest.
    NonNull::new(p).map(|p| unsafe { &mut *p.as_ptr() })
}

fn init() -> bool {
    if !ST.with(|s| s.get()).is_null() {
        return true;
    }
    let arena = map(ARENA);
    let recs = map(MAX_RECS * std::mem::size_of::<Rec>());
    let slots = map(SLOTS * 4);
    let st = map(PAGE);
    if arena == 0 || recs == 0 || slots == 0 || st == 0 {
        return false;
    }
    let s = st as *mut St;
    // SAFETY: a page is enough, all zero but what is set here.
    unsafe {
        std::ptr::write_bytes(s, 0, 1);
        (*s).arena = arena;
        (*s).bump = arena;
        (*s).recs = recs as *mut Rec;
        (*s).slots = slots as *mut u32;
        (*s).fail_from = usize::MAX;
    }
    ARENA_RANGE.store(arena, std::sync::atomic::Ordering::Relaxed);
    ST.with(|c| c.set(s));
    true
}

fn in_arena(p: usize) -> bool {
    let a = ARENA_RANGE.load(std::sync::atomic::Ordering::Relaxed);
    a != 0 && p >= a && p < a + ARENA
}

fn slot_of(p: usize) -> usize {
    (p as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) as usize >> 44 & (SLOTS - 1)
}

struct Fixed<'a>(&'a mut [u8], usize);
impl std::fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.1 < self.0.len() {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}

impl St {
    fn bad(&mut self, args: std::fmt::Arguments<'_>) {
        if self.bad_len == 0 {
            let mut f = Fixed(&mut self.bad, 0);
            let _ = std::fmt::write(&mut f, args);
            self.bad_len = f.1;
        }
    }
    fn find(&self, p: usize) -> Option<usize> {
        let mut s = slot_of(p);
        loop {
            // SAFETY: masked index.
            let i = unsafe { *self.slots.add(s) };
            if i == 0 {
                return None;
            }
            let r = unsafe { &*self.recs.add(i as usize - 1) };
            if r.ptr == p {
                return Some(i as usize - 1);
            }
            s = (s + 1) & (SLOTS - 1);
        }
    }
    fn rec(&self, i: usize) -> &'static mut Rec {
        // SAFETY: i < n <= MAX_RECS
        unsafe { &mut *self.recs.add(i) }
    }

    fn alloc(&mut self, size: usize, align: usize, zero: bool) -> *mut u8 {
        if size == 0 {
            self.bad(format_args!("allocation of zero bytes requested from the global allocator"));
        }
        if size >= self.fail_from && HARNESS.with(|h| h.get()) == 0 && IN_API.with(|a| a.get()) > 0 {
            self.failed += 1;
            return null_mut();
        }
        if self.n >= MAX_RECS {
            return null_mut();
        }
        self.allocs += 1;
        let h = crate::tape::mix(self.seed ^ self.allocs);
        let want_guard = size >= 64 && h & 3 == 0 || size >= 1024;
        let guard = want_guard && self.guarded < MAX_GUARDED && align <= 64;
        let (ptr, lo, hi, next);
        if guard {
            let start = (self.bump + PAGE - 1) & !(PAGE - 1);
            let body = (size + PAGE - 1) / PAGE * PAGE;
            let first = start + PAGE;
            next = first + body + PAGE;
            if next > self.arena + ARENA {
                return null_mut();
            }
            if h & 64 == 0 {
                // against the page behind: the alignment may leave a few bytes of slack
                ptr = (first + body - size) & !(align - 1);
            } else {
                ptr = first;
            }
            lo = first;
            hi = first + body;
            // SAFETY: pages of the arena that no block uses.
            unsafe {
                libc::mprotect(start as *mut _, PAGE, libc::PROT_NONE);
                libc::mprotect((first + body) as *mut _, PAGE, libc::PROT_NONE);
            }
            self.guarded += 1;
            self.guard_allocs += 1;
        } else {
            let mut p = self.bump + RZ;
            p = (p + align - 1) & !(align - 1);
            // aligned to exactly `align`
            if p & (2 * align - 1) == 0 {
                p += align;
            }
            ptr = p;
            lo = ptr - RZ.min(ptr - self.bump);
            hi = ptr + size + RZ;
            next = hi;
            if next > self.arena + ARENA {
                return null_mut();
            }
        }
        // SAFETY: inside the arena.
        unsafe {
            std::ptr::write_bytes(lo as *mut u8, 0xB7, ptr - lo);
            std::ptr::write_bytes((ptr + size) as *mut u8, 0xB7, hi - ptr - size);
            std::ptr::write_bytes(ptr as *mut u8, if zero { 0 } else { self.poison }, size);
        }
        self.bump = next;
        let api = IN_API.with(|a| a.get());
        let flags = if guard { F_GUARD } else { 0 }
            | if api > 0 && HARNESS.with(|h| h.get()) == 0 { F_API } else { 0 };
        *self.rec(self.n) = Rec { ptr, size, align, flags, epoch: self.epoch, lo, hi, api_no: api };
        let mut s = slot_of(ptr);
        // SAFETY: masked index; the table is at most half full.
        unsafe {
            while *self.slots.add(s) != 0 {
                s = (s + 1) & (SLOTS - 1);
            }
            *self.slots.add(s) = self.n as u32 + 1;
        }
        self.n += 1;
        self.live += 1;
        ptr as *mut u8
    }

    fn check_zones(&mut self, i: usize, when: &str) {
        let r = *self.rec(i);
        // SAFETY: the accessible range of the block.
        let (before, after) = unsafe {
            (
                std::slice::from_raw_parts(r.lo as *const u8, r.ptr - r.lo),
                std::slice::from_raw_parts((r.ptr + r.size) as *const u8, r.hi - r.ptr - r.size),
            )
        };
        if before.iter().any(|b| *b != 0xB7) {
            self.bad(format_args!(
                "bytes before a block of {} bytes (align {}) allocated in public call {} were overwritten, seen {when}",
                r.size, r.align, r.api_no
            ));
        }
        if after.iter().any(|b| *b != 0xB7) {
            self.bad(format_args!(
                "bytes behind a block of {} bytes (align {}) allocated in public call {} were overwritten, seen {when}",
                r.size, r.align, r.api_no
            ));
        }
    }

    fn free(&mut self, p: usize, size: usize, align: usize) {
        let Some(i) = self.find(p) else {
            self.bad(format_args!("free of an address that is not the start of a block"));
            return;
        };
        let r = *self.rec(i);
        if r.flags & F_FREED != 0 {
            self.bad(format_args!("block of {} bytes freed twice", r.size));
            return;
        }
        if r.size != size || r.align != align {
            self.bad(format_args!(
                "block of {} bytes (align {}) freed with the layout of {} bytes (align {})",
                r.size, r.align, size, align
            ));
        }
        self.check_zones(i, "when it was freed");
        self.frees += 1;
        self.live -= 1;
        self.rec(i).flags |= F_FREED;
        // SAFETY: the block.
        unsafe {
            if r.flags & F_GUARD != 0 {
                let lo = r.lo & !(PAGE - 1);
                libc::mprotect(lo as *mut _, r.hi - lo, libc::PROT_NONE);
            } else {
                std::ptr::write_bytes(p as *mut u8, !self.poison, r.size);
            }
        }
    }
}

// SAFETY: blocks come from the arena or from the system allocator and go back where they came from.
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            if let Some(st) = state() {
                let f = st.failed;
                let p = st.alloc(l.size(), l.align(), false);
                if !p.is_null() || st.failed != f {
                    return p;
                }
            }
        }
        meter(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            if let Some(st) = state() {
                let f = st.failed;
                let p = st.alloc(l.size(), l.align(), true);
                if !p.is_null() || st.failed != f {
                    return p;
                }
            }
        }
        meter(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            if let Some(st) = state() {
                st.free(p as usize, l.size(), l.align());
            }
            return;
        }
        meter(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let active = ACTIVE.try_with(|a| a.get()).unwrap_or(false);
        if !active && !in_arena(p as usize) {
            meter(new as isize - l.size() as isize);
            return System.realloc(p, l, new);
        }
        if active {
            if let Some(st) = state() {
                st.reallocs += 1;
            }
        }
        // always moves
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// Runs harness work: what it allocates is not the code under test's.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    struct Dec;
    impl Drop for Dec {
        fn drop(&mut self) {
            HARNESS.with(|h| h.set(h.get() - 1));
        }
    }
    HARNESS.with(|h| h.set(h.get() + 1));
    let _d = Dec;
    f()
}

pub fn api_enter(n: u64) {
    IN_API.with(|a| a.set(n));
}
pub fn api_leave() {
    IN_API.with(|a| a.set(0));
}

/// Switches the simulated allocator on (C17).
pub fn activate(seed: u64, poison: u8) -> bool {
    if !init() {
        return false;
    }
    let st = state().unwrap();
    st.seed = seed;
    st.poison = poison;
    st.epoch += 1;
    st.fail_from = usize::MAX;
    st.failed = 0;
    ACTIVE.with(|a| a.set(true));
    true
}

pub fn deactivate() {
    ACTIVE.with(|a| a.set(false));
    api_leave();
}

/// Requests of at least this many bytes made by the code under test fail.
pub fn fail_from(size: usize) {
    if let Some(st) = state() {
        st.fail_from = size;
    }
}
pub fn failed() -> u64 {
    state().map_or(0, |s| s.failed)
}

/// The first broken rule since the run began.
pub fn broken() -> Option<String> {
    let st = state()?;
    if st.bad_len == 0 {
        return None;
    }
    Some(String::from_utf8_lossy(&st.bad[..st.bad_len]).into_owned())
}

/// Looks at every block: red zones of the live ones, poison of the freed ones.
pub fn sweep() {
    let Some(st) = state() else { return };
    for i in 0..st.n {
        let r = *st.rec(i);
        if r.flags & F_FREED == 0 {
            st.check_zones(i, "at the end of the play");
        } else if r.flags & F_GUARD == 0 {
            // SAFETY: arena memory that is not given to anybody.
            let b = unsafe { std::slice::from_raw_parts(r.ptr as *const u8, r.size) };
            let first = b.first().copied();
            if b.iter().any(|x| Some(*x) != first) {
                st.bad(format_args!(
                    "a freed block of {} bytes (allocated in public call {}) was written to",
                    r.size, r.api_no
                ));
            }
        }
    }
}

/// Live blocks allocated by the code under test since the last `activate`: (count, bytes, public call).
pub fn leaks() -> Option<(u64, usize, u64)> {
    let st = state()?;
    let (mut n, mut bytes, mut api) = (0, 0, 0);
    for i in 0..st.n {
        let r = st.rec(i);
        if r.flags & (F_FREED | F_API) == F_API && r.epoch == st.epoch {
            n += 1;
            bytes += r.size;
            api = r.api_no;
        }
    }
    if n > 0 {
        Some((n, bytes, api))
    } else {
        None
    }
}

pub fn stats() -> (u64, u64, u64, u64) {
    state().map_or((0, 0, 0, 0), |s| (s.allocs, s.frees, s.guard_allocs, s.reallocs))
}

pub fn run_begin() {
    deactivate();
    let Some(st) = state() else { return };
    st.bad_len = 0;
    st.allocs = 0;
    st.frees = 0;
    st.guard_allocs = 0;
    st.reallocs = 0;
    if st.live > 0 {
        return;
    }
    for i in 0..st.n {
        let mut s = slot_of(st.rec(i).ptr);
        // SAFETY: masked index; every chain is emptied.
        unsafe {
            while *st.slots.add(s) != 0 {
                *st.slots.add(s) = 0;
                s = (s + 1) & (SLOTS - 1);
            }
        }
    }
    st.n = 0;
    let used = (st.bump.max(st.arena) - st.arena + PAGE - 1) / PAGE * PAGE;
    if used > 0 {
        // SAFETY: no live block in the arena.
        unsafe {
            if st.guarded > 0 {
                libc::mprotect(st.arena as *mut _, (used + PAGE).min(ARENA), libc::PROT_READ | libc::PROT_WRITE);
            }
            if used > 8 << 20 {
                libc::madvise(st.arena as *mut _, used, libc::MADV_DONTNEED);
            }
        }
    }
    st.guarded = 0;
    st.bump = st.arena;
}

pub fn run_end() {
    deactivate();
    meter_stop();
}
