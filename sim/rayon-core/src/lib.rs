//! A stand-in for `rayon-core`: same API, one thread, and every decision the real pool leaves to
//! the operating system (how many workers there are, which of two joined jobs runs first, whether
//! a job was stolen, when a spawned job runs) taken from a seed installed by the simulator.

use std::any::Any;
use std::cell::Cell;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;

/// The simulator's side.
pub mod sim {
    use std::cell::Cell;
    thread_local! {
        pub(crate) static SEED: Cell<u64> = const { Cell::new(0) };
        pub(crate) static STEP: Cell<u64> = const { Cell::new(0) };
        pub(crate) static THREADS: Cell<usize> = const { Cell::new(1) };
        pub(crate) static JOINS: Cell<u64> = const { Cell::new(0) };
        pub(crate) static SWAPS: Cell<u64> = const { Cell::new(0) };
        pub(crate) static TRACE: Cell<u64> = const { Cell::new(0) };
    }

    /// Installs the schedule of a run. Seed 0 is the canonical schedule (left job first, not stolen).
    pub fn install(seed: u64, threads: usize) {
        SEED.with(|c| c.set(seed));
        STEP.with(|c| c.set(0));
        THREADS.with(|c| c.set(threads.max(1)));
        JOINS.with(|c| c.set(0));
        SWAPS.with(|c| c.set(0));
        TRACE.with(|c| c.set(0));
    }

    /// (joins executed, joins executed right-to-left, hash of the decisions)
    pub fn stats() -> (u64, u64, u64) {
        (JOINS.with(|c| c.get()), SWAPS.with(|c| c.get()), TRACE.with(|c| c.get()))
    }

    pub(crate) fn decide() -> u64 {
        let seed = SEED.with(|c| c.get());
        if seed == 0 {
            return 0;
        }
        let step = STEP.with(|c| {
            let s = c.get() + 1;
            c.set(s);
            s
        });
        let mut x = seed ^ step.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^= x >> 31;
        TRACE.with(|c| c.set(c.get().rotate_left(7) ^ (x & 7)));
        x
    }
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    sim::JOINS.with(|c| c.set(c.get() + 1));
    let d = sim::decide();
    let stolen = d & 2 != 0 && current_num_threads() > 1;
    if d & 1 != 0 {
        sim::SWAPS.with(|c| c.set(c.get() + 1));
        let rb = oper_b(FnContext::new(stolen));
        let ra = oper_a(FnContext::new(false));
        (ra, rb)
    } else {
        let ra = oper_a(FnContext::new(false));
        let rb = oper_b(FnContext::new(stolen));
        (ra, rb)
    }
}

pub fn current_num_threads() -> usize {
    sim::THREADS.with(|c| c.get())
}
pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_thread_index() -> Option<usize> {
    Some(0)
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    Some(false)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}

pub fn spawn<F: FnOnce() + Send + 'static>(func: F) {
    func()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(func: F) {
    func()
}

// Spawned jobs run immediately or at the end of their scope, as the schedule decides.
type ScopeJob<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;
type ScopeFifoJob<'scope> = Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + 'scope>;

pub struct Scope<'scope> {
    pending: Cell<Vec<ScopeJob<'scope>>>,
}
pub struct ScopeFifo<'scope> {
    pending: Cell<Vec<ScopeFifoJob<'scope>>>,
}
// SAFETY: the stand-in pool has exactly one thread, no reference ever crosses one.
unsafe impl Sync for Scope<'_> {}
unsafe impl Sync for ScopeFifo<'_> {}

impl<'scope> Scope<'scope> {
    pub fn spawn<BODY: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, body: BODY) {
        if sim::decide() & 1 == 0 {
            body(self)
        } else {
            let mut v = self.pending.take();
            v.push(Box::new(body));
            self.pending.set(v);
        }
    }
    pub fn spawn_broadcast<BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope>(
        &self,
        body: BODY,
    ) {
        body(self, BroadcastContext { _marker: PhantomData })
    }
    fn drain(&self) {
        loop {
            let mut v = self.pending.take();
            if v.is_empty() {
                return;
            }
            let i = (sim::decide() % v.len() as u64) as usize;
            let job = v.swap_remove(i);
            self.pending.set(v);
            job(self);
        }
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope>(&self, body: BODY) {
        if sim::decide() & 1 == 0 {
            body(self)
        } else {
            let mut v = self.pending.take();
            v.push(Box::new(body));
            self.pending.set(v);
        }
    }
    pub fn spawn_broadcast<
        BODY: Fn(&ScopeFifo<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    >(
        &self,
        body: BODY,
    ) {
        body(self, BroadcastContext { _marker: PhantomData })
    }
    fn drain(&self) {
        loop {
            let mut v = self.pending.take();
            if v.is_empty() {
                return;
            }
            let job = v.remove(0);
            self.pending.set(v);
            job(self);
        }
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { pending: Cell::new(Vec::new()) };
    let r = op(&s);
    s.drain();
    r
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo { pending: Cell::new(Vec::new()) };
    let r = op(&s);
    s.drain();
    r
}

pub struct BroadcastContext<'a> {
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        0
    }
    pub fn num_threads(&self) -> usize {
        1
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    vec![op(BroadcastContext { _marker: PhantomData })]
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    op(BroadcastContext { _marker: PhantomData })
}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool build error")
    }
}
impl Error for ThreadPoolBuildError {}

#[derive(Default)]
pub struct ThreadPoolBuilder {
    num_threads: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.num_threads = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn stack_size(self, _s: usize) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: self.num_threads })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        let old = sim::THREADS.with(|c| c.get());
        if self.n != 0 {
            sim::THREADS.with(|c| c.set(self.n));
        }
        let r = op();
        sim::THREADS.with(|c| c.set(old));
        r
    }
    pub fn current_num_threads(&self) -> usize {
        if self.n != 0 {
            self.n
        } else {
            current_num_threads()
        }
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        Some(0)
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        op()
    }
}
