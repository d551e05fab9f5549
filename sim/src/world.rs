//! The simulated world of one run: disk, component calls, the schedule of their effects, the event log.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};

use crate::tape::{mix, mix2, Tape};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Read = 0,
    Write = 1,
    Flush = 2,
    Seek = 3,
    Create = 4,
    Merge = 5,
}
pub const OPS: [&str; 6] = ["read", "write", "flush", "seek", "create", "merge"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Effect {
    Full,
    Short(u64),
    Intr,
    /// Accepts nothing: a full disk.
    Zero,
    /// Fails with ERR_KINDS[kind].
    Err(u8),
    /// A write that is accepted, the storage notices later: reported by the next flush/seek/read.
    Defer(u8),
}

pub const ERR_KINDS: [(ErrorKind, i32); 16] = [
    (ErrorKind::Other, 0),
    (ErrorKind::UnexpectedEof, 0),
    (ErrorKind::InvalidData, 0),
    (ErrorKind::WriteZero, 0),
    (ErrorKind::WouldBlock, 0),
    (ErrorKind::TimedOut, 0),
    (ErrorKind::BrokenPipe, 0),
    (ErrorKind::InvalidInput, 0),
    (ErrorKind::NotFound, 0),
    (ErrorKind::PermissionDenied, 0),
    (ErrorKind::ConnectionReset, 0),
    (ErrorKind::OutOfMemory, 0),
    (ErrorKind::Unsupported, 0),
    (ErrorKind::AlreadyExists, 0),
    (ErrorKind::StorageFull, 28), // raw ENOSPC
    (ErrorKind::Other, 5),        // raw EIO
];

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct SimError(pub u64);
impl fmt::Display for SimError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simfault#{}#", self.0)
    }
}
impl std::error::Error for SimError {}

pub struct Livelock;

/// What a scheduled fault hits.
#[derive(Clone, Debug)]
pub struct FaultSpec {
    /// Only these operations count (bit mask over `Op`).
    pub ops: u8,
    /// Only this file, if given.
    pub file: Option<usize>,
    /// The n-th matching call (1-based) since the plan was installed.
    pub nth: u64,
    pub effect: Effect,
    /// Every later matching call fails as well.
    pub sticky: bool,
    pub seen: u64,
}

#[derive(Clone, Debug, Default)]
pub struct IoPlan {
    pub seed: u64,
    pub read_mode: Mode,
    pub write_mode: Mode,
    /// per 1024 calls
    pub intr_read: u32,
    pub intr_write: u32,
    /// probability of transient read/seek errors, per 65536 calls
    pub err_read: u32,
    pub err_seek: u32,
    pub faults: Vec<FaultSpec>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Mode {
    #[default]
    Whole,
    One,
    Random(u32),
    AllButOne,
    Mixed,
}

impl IoPlan {
    pub fn canonical() -> IoPlan {
        IoPlan::default()
    }

    /// A benign schedule: nothing fails, but calls may be split and interrupted.
    pub fn draw_benign(t: &mut Tape) -> IoPlan {
        let mut p = IoPlan::default();
        if !t.chance(3, 4) {
            return p;
        }
        fn mode(t: &mut Tape) -> Mode {
            match t.weighted(&[3, 2, 3, 1, 3]) {
                0 => Mode::Whole,
                1 => Mode::One,
                2 => Mode::Random(t.range(1, 64) as u32),
                3 => Mode::AllButOne,
                _ => Mode::Mixed,
            }
        }
        p.read_mode = mode(t);
        p.write_mode = mode(t);
        p.intr_read = t.pick(&[0, 16, 256, 512]);
        p.intr_write = t.pick(&[0, 16, 256, 512]);
        p.seed = t.seed();
        p
    }

    pub fn is_canonical(&self) -> bool {
        self.read_mode == Mode::Whole
            && self.write_mode == Mode::Whole
            && self.intr_read == 0
            && self.intr_write == 0
            && self.faults.is_empty()
            && self.err_read == 0
            && self.err_seek == 0
    }
    pub fn describe(&self) -> String {
        format!(
            "read {:?} intr {}/1024, write {:?} intr {}/1024, faults {:?}",
            self.read_mode, self.intr_read, self.write_mode, self.intr_write, self.faults
        )
    }
}

#[derive(Clone, Debug)]
pub struct Fired {
    pub call_no: u64,
    pub op: Op,
    pub api_no: u64,
    pub api: &'static str,
    pub effect: Effect,
    pub file: usize,
}

/// A disk that stores equal pages once: files of gigabytes that cost a few pages.
/// It only grows at its end.
#[derive(Default)]
pub struct Pages {
    map: Vec<u32>,
    store: Vec<Vec<u8>>,
    tail: Vec<u8>,
}

const PAGE: usize = 256 << 10;
/// unequal pages one file may hold (a gigabyte)
const MAX_PAGES: usize = 4096;

impl Pages {
    fn len(&self) -> u64 {
        (self.map.len() * PAGE + self.tail.len()) as u64
    }
    /// false: the pages are not equal enough
    fn append(&mut self, mut buf: &[u8]) -> bool {
        while !buf.is_empty() {
            let n = buf.len().min(PAGE - self.tail.len());
            let page = if n == PAGE { &buf[..PAGE] } else {
                self.tail.extend_from_slice(&buf[..n]);
                &self.tail[..]
            };
            if page.len() == PAGE {
                let last = self.map.last().copied().unwrap_or(0) as usize;
                let at = match self.store.get(last) {
                    Some(p) if p == page => Some(last),
                    _ => self.store.iter().rposition(|p| p == page),
                };
                let at = at.unwrap_or_else(|| {
                    self.store.push(page.to_vec());
                    self.store.len() - 1
                });
                self.map.push(at as u32);
                self.tail.clear();
                if self.store.len() > MAX_PAGES {
                    return false;
                }
            }
            buf = &buf[n..];
        }
        true
    }
    pub fn read(&self, pos: u64, buf: &mut [u8]) {
        let mut done = 0;
        while done < buf.len() {
            let at = pos as usize + done;
            let page = match self.map.get(at / PAGE) {
                Some(i) => &self.store[*i as usize],
                None => &self.tail,
            };
            let from = at % PAGE;
            let n = (page.len() - from).min(buf.len() - done);
            buf[done..done + n].copy_from_slice(&page[from..from + n]);
            done += n;
        }
    }
}

#[derive(Default)]
pub struct FileSt {
    pub data: Vec<u8>,
    /// a hole before the data
    pub base: u64,
    /// in place of the data
    pub pages: Option<Pages>,
    pub shared_pos: u64,
    pub handles: u32,
    pub is_chunk: bool,
    pub keep: bool,
    pub deferred: Option<(u8, u64)>,
    pub unflushed: bool,
    /// (api_no, length after the write)
    pub write_log: Option<Vec<(u64, u64)>>,
    /// (position, bytes returned)
    pub read_log: Option<Vec<(u64, u64)>>,
}

impl FileSt {
    pub fn len(&self) -> u64 {
        match &self.pages {
            Some(p) => p.len(),
            None => self.base + self.data.len() as u64,
        }
    }
}

#[derive(Default)]
pub struct World {
    pub files: Vec<FileSt>,
    pub plan: IoPlan,
    pub explicit: Option<BTreeMap<u64, Effect>>,
    pub call_no: u64,
    pub op_no: [u64; 6],
    pub plan_calls: u64,
    pub api_no: u64,
    pub api: &'static str,
    pub api_io: u64,
    pub api_limit: u64,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    pub effects: Vec<(u64, Effect)>,
    pub effects_overflow: bool,
    consecutive_intr: u32,
    pub fired: Vec<Fired>,
    pub stats: [u64; NSTAT],
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub live_chunks: i64,
    pub max_live_chunks: i64,
    pub created_chunks: u64,
    /// (create = true / drop = false, live chunks after, api_no)
    pub chunk_log: Vec<(bool, i64, u64)>,
    /// a file was asked for what its disk cannot do, nothing can be concluded
    pub unsupported: bool,
    pub paused: bool,
}

pub const NSTAT: usize = 14;
pub const STAT_NAMES: [&str; NSTAT] = [
    "short_read",
    "short_write",
    "interrupted_read",
    "interrupted_write",
    "error_read",
    "error_write",
    "error_flush",
    "error_seek",
    "error_create",
    "error_merge",
    "full_disk_write",
    "deferred_write_failure",
    "deferred_failure_reported",
    "api_calls",
];

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    harness(|| W.with(|w| f(&mut w.borrow_mut())))
}

/// Work of the harness inside a public call.
pub use crate::alloc::harness;

pub const API_LIMIT: u64 = 30_000_000;

/// Starts a new run.
pub fn reset(explicit: Option<Vec<(u64, Effect)>>, trace: bool) {
    let mut w = World::default();
    w.explicit = explicit.map(|v| v.into_iter().collect());
    w.trace = if trace { Some(Vec::new()) } else { None };
    w.api_limit = API_LIMIT;
    w.api = "setup";
    let old = W.with(|c| std::mem::replace(&mut *c.borrow_mut(), w));
    drop(old);
}

pub fn install(plan: IoPlan) {
    with(|w| {
        if let Some(tr) = &mut w.trace {
            tr.push(format!("plan: {}", plan.describe()));
        }
        w.plan = plan;
        w.plan_calls = 0;
        w.consecutive_intr = 0;
    })
}

pub fn note(x: u64) {
    with(|w| w.hash = mix2(w.hash, x))
}

pub fn trace(f: impl FnOnce() -> String) {
    with(|w| {
        if let Some(t) = &mut w.trace {
            if t.len() < 20_000 {
                t.push(f())
            }
        }
    })
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl World {
    fn decide(&mut self, op: Op, file: usize, len: u64) -> Effect {
        self.call_no += 1;
        self.op_no[op as usize] += 1;
        self.plan_calls += 1;
        self.api_io += 1;
        if self.api_io > self.api_limit {
            self.api_io = 0;
            std::panic::panic_any(Livelock);
        }
        if self.paused {
            return Effect::Full;
        }
        let eff = if let Some(m) = &self.explicit {
            m.get(&self.call_no).copied().unwrap_or(Effect::Full)
        } else {
            self.planned(op, file, len)
        };
        // Rewrite effects that make no sense for this call (can happen with edited replay files).
        let eff = match (op, eff) {
            (Op::Read, Effect::Zero | Effect::Defer(_)) => Effect::Full,
            (Op::Flush | Op::Seek | Op::Create | Op::Merge, Effect::Zero | Effect::Defer(_))
            | (Op::Flush | Op::Seek | Op::Create | Op::Merge, Effect::Short(_) | Effect::Intr) => Effect::Full,
            (_, e) => e,
        };
        match eff {
            Effect::Intr => self.consecutive_intr += 1,
            _ => self.consecutive_intr = 0,
        }
        if eff != Effect::Full {
            if self.effects.len() < 200_000 {
                self.effects.push((self.call_no, eff));
            } else {
                self.effects_overflow = true;
            }
            match (op, eff) {
                (Op::Read, Effect::Short(_)) => self.stats[0] += 1,
                (Op::Write, Effect::Short(_)) => self.stats[1] += 1,
                (Op::Read, Effect::Intr) => self.stats[2] += 1,
                (Op::Write, Effect::Intr) => self.stats[3] += 1,
                (_, Effect::Zero) => self.stats[10] += 1,
                (_, Effect::Defer(_)) => self.stats[11] += 1,
                (op, Effect::Err(_)) => self.stats[4 + op as usize] += 1,
                _ => {}
            }
            if matches!(eff, Effect::Err(_) | Effect::Zero) {
                self.fired.push(Fired {
                    call_no: self.call_no,
                    op,
                    api_no: self.api_no,
                    api: self.api,
                    effect: eff,
                    file,
                });
            }
        }
        eff
    }

    fn planned(&mut self, op: Op, file: usize, len: u64) -> Effect {
        let mut hit = None;
        for f in self.plan.faults.iter_mut() {
            if f.ops & (1 << op as u8) == 0 || f.file.is_some_and(|x| x != file) {
                continue;
            }
            f.seen += 1;
            if f.seen == f.nth || (f.sticky && f.seen > f.nth) {
                hit = Some(f.effect);
            }
        }
        if let Some(e) = hit {
            return e;
        }
        // the same plan gives the same schedule to every play of a scenario
        let h = || mix2(self.plan.seed, self.plan_calls.wrapping_mul(8) + op as u64);
        match op {
            Op::Read | Op::Write => {
                let (mode, intr) = if op == Op::Read {
                    (self.plan.read_mode, self.plan.intr_read)
                } else {
                    (self.plan.write_mode, self.plan.intr_write)
                };
                if op == Op::Read && self.plan.err_read != 0 {
                    let h = mix(h() ^ 0x55);
                    if (h & 0xffff) < self.plan.err_read as u64 {
                        return Effect::Err(((h >> 20) % 16) as u8);
                    }
                }
                // bursts of interruptions: short in most schedules, long in some
                let burst = [3, 3, 3, 14, 40, 200][(self.plan.seed >> 7) as usize % 6];
                if intr != 0 && self.consecutive_intr < burst && (mix(h()) & 1023) < intr as u64 {
                    return Effect::Intr;
                }
                // megabytes are not moved byte by byte
                let mode = match mode {
                    Mode::One | Mode::Random(_) if self.files[file].data.len() > 1 << 20 => Mode::Random(700),
                    m => m,
                };
                match mode {
                    Mode::Whole => Effect::Full,
                    Mode::One => Effect::Short(1),
                    Mode::Random(m) => {
                        let k = 1 + h() % m as u64;
                        if k < len {
                            Effect::Short(k)
                        } else {
                            Effect::Full
                        }
                    }
                    Mode::AllButOne => {
                        if len > 1 {
                            Effect::Short(len - 1)
                        } else {
                            Effect::Full
                        }
                    }
                    Mode::Mixed => {
                        let h = h();
                        match h & 3 {
                            0 => Effect::Full,
                            1 => Effect::Short(1),
                            _ if len > 1 => Effect::Short(1 + (h >> 8) % (len - 1)),
                            _ => Effect::Full,
                        }
                    }
                }
            }
            Op::Seek if self.plan.err_seek != 0 => {
                let h = mix(h() ^ 0x77);
                if (h & 0xffff) < self.plan.err_seek as u64 {
                    Effect::Err(((h >> 20) % 16) as u8)
                } else {
                    Effect::Full
                }
            }
            _ => Effect::Full,
        }
    }

    fn event(&mut self, op: Op, file: usize, pos: u64, len: u64, eff: Effect, res: u64) {
        let e = match eff {
            Effect::Full => 0,
            Effect::Short(_) => 1,
            Effect::Intr => 2,
            Effect::Zero => 3,
            Effect::Err(k) => 16 + k as u64,
            Effect::Defer(k) => 64 + k as u64,
        };
        self.hash = mix2(
            self.hash,
            (op as u64) | (file as u64) << 3 | e << 12 | len.min(1 << 20) << 20 ^ pos << 40 ^ res << 7,
        );
        if let Some(t) = &mut self.trace {
            if t.len() < 20_000 {
                t.push(format!(
                    "    #{} {} file{} pos={} len={} -> {}",
                    self.call_no,
                    OPS[op as usize],
                    file,
                    pos,
                    len,
                    match eff {
                        Effect::Err(k) => format!("Err({:?})", ERR_KINDS[k as usize].0),
                        Effect::Intr => "Err(Interrupted)".into(),
                        Effect::Defer(k) =>
                            format!("{} (storage will report {:?})", res, ERR_KINDS[k as usize].0),
                        _ => format!("{}", res),
                    }
                ));
            }
        }
    }
}

pub fn make_error(kind: u8, call_no: u64) -> io::Error {
    let (k, raw) = ERR_KINDS[kind as usize % ERR_KINDS.len()];
    if raw != 0 {
        io::Error::from_raw_os_error(raw)
    } else {
        io::Error::new(k, SimError(call_no))
    }
}

/// Does this error carry the failure injected as (kind, call_no)?
pub fn carries(err: &io::Error, effect: Effect, call_no: u64) -> bool {
    match effect {
        Effect::Err(kind) | Effect::Defer(kind) => {
            let (k, raw) = ERR_KINDS[kind as usize % ERR_KINDS.len()];
            if raw != 0 {
                return err.raw_os_error() == Some(raw)
                    || err.kind() == io::Error::from_raw_os_error(raw).kind();
            }
            if err.kind() != k {
                return false;
            }
            if let Some(inner) = err.get_ref() {
                if inner.downcast_ref::<SimError>() == Some(&SimError(call_no)) {
                    return true;
                }
            }
            let text = format!("{err} {err:?}");
            text.contains(&SimError(call_no).to_string())
        }
        Effect::Zero => err.kind() == ErrorKind::WriteZero,
        _ => false,
    }
}

/// A handle on a file of the simulated disk.
pub struct SimFile {
    pub id: usize,
    pos: Option<u64>,
}

impl fmt::Debug for SimFile {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimFile({})", self.id)
    }
}

pub fn new_file(data: Vec<u8>) -> usize {
    with(|w| {
        w.files.push(FileSt { data, keep: true, ..FileSt::default() });
        w.files.len() - 1
    })
}

/// A file that starts with a hole of zeroes.
pub fn new_file_at(base: u64, data: Vec<u8>) -> usize {
    let id = new_file(data);
    with(|w| w.files[id].base = base);
    id
}

pub fn file_bytes(id: usize) -> Vec<u8> {
    with(|w| w.files[id].data.clone())
}
pub fn file_len(id: usize) -> usize {
    with(|w| w.files[id].data.len())
}

impl SimFile {
    /// A handle with its own position.
    pub fn open(id: usize) -> SimFile {
        with(|w| w.files[id].handles += 1);
        SimFile { id, pos: Some(0) }
    }
    /// A handle sharing the position of the file with every other shared handle (a dup'ed descriptor).
    pub fn open_shared(id: usize) -> SimFile {
        with(|w| w.files[id].handles += 1);
        SimFile { id, pos: None }
    }
    /// A file on a disk that stores equal pages once.
    pub fn create_paged() -> SimFile {
        let id = new_file(Vec::new());
        with(|w| w.files[id].pages = Some(Pages::default()));
        SimFile::open(id)
    }
    pub fn create() -> SimFile {
        let id = new_file(Vec::new());
        SimFile::open(id)
    }
}

impl Clone for SimFile {
    fn clone(&self) -> Self {
        with(|w| w.files[self.id].handles += 1);
        SimFile { id: self.id, pos: self.pos }
    }
}

impl Drop for SimFile {
    fn drop(&mut self) {
        // The thread local world may already be gone at process exit.
        let _ = harness(|| W.try_with(|w| {
            if let Ok(mut w) = w.try_borrow_mut() {
                let w = &mut *w;
                if let Some(f) = w.files.get_mut(self.id) {
                    f.handles = f.handles.saturating_sub(1);
                    if f.handles == 0 && f.is_chunk {
                        if !f.keep {
                            f.data = Vec::new();
                        }
                        w.live_chunks -= 1;
                        let l = w.live_chunks;
                        w.chunk_log.push((false, l, w.api_no));
                        if let Some(t) = &mut w.trace {
                            t.push(format!("    drop chunk file{} (live {})", self.id, l));
                        }
                    }
                }
            }
        }));
    }
}

fn take_deferred(w: &mut World, id: usize, op: Op) -> Option<io::Error> {
    let (kind, call_no) = w.files[id].deferred.take()?;
    w.stats[12] += 1;
    w.fired.push(Fired {
        call_no,
        op,
        api_no: w.api_no,
        api: w.api,
        effect: Effect::Defer(kind),
        file: id,
    });
    if let Some(t) = &mut w.trace {
        t.push(format!("    file{} reports the deferred failure of call #{}", id, call_no));
    }
    Some(make_error(kind, call_no))
}

impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        with(|w| {
            let eff = w.decide(Op::Read, self.id, buf.len() as u64);
            let pos = self.pos.unwrap_or(w.files[self.id].shared_pos);
            let n = match eff {
                Effect::Intr | Effect::Err(_) => {
                    w.event(Op::Read, self.id, pos, buf.len() as u64, eff, 0);
                    return Err(match eff {
                        Effect::Err(k) => make_error(k, w.call_no),
                        _ => io::Error::from(ErrorKind::Interrupted),
                    });
                }
                Effect::Short(k) => (k.max(1) as usize).min(buf.len()),
                _ => buf.len(),
            };
            if let Some(e) = take_deferred(w, self.id, Op::Read) {
                return Err(e);
            }
            let f = &mut w.files[self.id];
            let start = pos.min(f.len());
            let n = n.min((f.len() - start) as usize);
            match &f.pages {
                Some(p) => p.read(start, &mut buf[..n]),
                None => {
                    let hole = f.base.saturating_sub(start).min(n as u64) as usize;
                    buf[..hole].fill(0);
                    let at = start.saturating_sub(f.base) as usize;
                    buf[hole..n].copy_from_slice(&f.data[at..at + n - hole]);
                }
            }
            if let Some(l) = &mut f.read_log {
                l.push((pos, n as u64));
            }
            match &mut self.pos {
                Some(p) => *p = pos + n as u64,
                None => f.shared_pos = pos + n as u64,
            }
            w.bytes_read += n as u64;
            w.event(Op::Read, self.id, pos, buf.len() as u64, eff, n as u64);
            Ok(n)
        })
    }
}

impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        with(|w| {
            let eff = w.decide(Op::Write, self.id, buf.len() as u64);
            let pos = self.pos.unwrap_or(w.files[self.id].shared_pos);
            let n = match eff {
                Effect::Intr | Effect::Err(_) => {
                    w.event(Op::Write, self.id, pos, buf.len() as u64, eff, 0);
                    return Err(match eff {
                        Effect::Err(k) => make_error(k, w.call_no),
                        _ => io::Error::from(ErrorKind::Interrupted),
                    });
                }
                Effect::Zero => {
                    w.event(Op::Write, self.id, pos, buf.len() as u64, eff, 0);
                    return Ok(0);
                }
                Effect::Short(k) => (k.max(1) as usize).min(buf.len()),
                _ => buf.len(),
            };
            let (call_no, api_no) = (w.call_no, w.api_no);
            let f = &mut w.files[self.id];
            if let Effect::Defer(k) = eff {
                f.deferred = Some((k, call_no));
            }
            if let Some(p) = &mut f.pages {
                if pos != p.len() || !p.append(&buf[..n]) {
                    w.unsupported = true;
                    return Err(ErrorKind::StorageFull.into());
                }
            } else {
                let start = pos as usize;
                if f.data.len() < start {
                    f.data.resize(start, 0);
                }
                let overlap = (f.data.len() - start).min(n);
                f.data[start..start + overlap].copy_from_slice(&buf[..overlap]);
                f.data.extend_from_slice(&buf[overlap..n]);
            }
            f.unflushed = true;
            let len = f.len();
            if let Some(l) = &mut f.write_log {
                match l.last_mut() {
                    Some(last) if last.0 == api_no => last.1 = len,
                    _ => l.push((api_no, len)),
                }
            }
            match &mut self.pos {
                Some(p) => *p = pos + n as u64,
                None => f.shared_pos = pos + n as u64,
            }
            w.bytes_written += n as u64;
            w.event(Op::Write, self.id, pos, buf.len() as u64, eff, n as u64);
            Ok(n)
        })
    }

    fn flush(&mut self) -> io::Result<()> {
        with(|w| {
            let eff = w.decide(Op::Flush, self.id, 0);
            w.event(Op::Flush, self.id, 0, 0, eff, 0);
            if let Effect::Err(k) = eff {
                return Err(make_error(k, w.call_no));
            }
            if let Some(e) = take_deferred(w, self.id, Op::Flush) {
                return Err(e);
            }
            w.files[self.id].unflushed = false;
            Ok(())
        })
    }
}

impl Seek for SimFile {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        with(|w| {
            let eff = w.decide(Op::Seek, self.id, 0);
            let pos = self.pos.unwrap_or(w.files[self.id].shared_pos);
            if let Effect::Err(k) = eff {
                w.event(Op::Seek, self.id, pos, 0, eff, 0);
                return Err(make_error(k, w.call_no));
            }
            if let Some(e) = take_deferred(w, self.id, Op::Seek) {
                return Err(e);
            }
            let len = w.files[self.id].len() as i128;
            let target = match to {
                SeekFrom::Start(x) => x as i128,
                SeekFrom::End(d) => len + d as i128,
                SeekFrom::Current(d) => pos as i128 + d as i128,
            };
            if target < 0 || target > u64::MAX as i128 {
                w.event(Op::Seek, self.id, pos, 0, eff, u64::MAX);
                return Err(io::Error::new(
                    ErrorKind::InvalidInput,
                    "invalid seek to a negative or overflowing position",
                ));
            }
            let target = target as u64;
            match &mut self.pos {
                Some(p) => *p = target,
                None => w.files[self.id].shared_pos = target,
            }
            w.event(Op::Seek, self.id, pos, 0, eff, target);
            Ok(target)
        })
    }
}

/// The simulated chunk storage.
#[derive(Clone, Default)]
pub struct SimChunks {
    pub keep: bool,
    pub shared: bool,
    /// How creation errors look like: 0 io, 1 Error::InvalidCompressionType, 2 Error::InvalidFormatVersion
    pub err_style: u8,
}

impl grenad::ChunkCreator for SimChunks {
    type Chunk = SimFile;
    type Error = grenad::Error;

    fn create(&self) -> Result<SimFile, grenad::Error> {
        with(|w| {
            let id = w.files.len();
            let eff = w.decide(Op::Create, id, 0);
            w.event(Op::Create, id, 0, 0, eff, 0);
            if let Effect::Err(k) = eff {
                return Err(match self.err_style {
                    1 => grenad::Error::InvalidCompressionType,
                    2 => grenad::Error::InvalidFormatVersion,
                    _ => grenad::Error::Io(make_error(k, w.call_no)),
                });
            }
            w.files.push(FileSt {
                is_chunk: true,
                keep: self.keep,
                handles: 1,
                ..FileSt::default()
            });
            w.created_chunks += 1;
            w.live_chunks += 1;
            w.max_live_chunks = w.max_live_chunks.max(w.live_chunks);
            let l = w.live_chunks;
            w.chunk_log.push((true, l, w.api_no));
            if let Some(t) = &mut w.trace {
                t.push(format!("    create chunk file{} (live {})", id, l));
            }
            Ok(SimFile { id, pos: if self.shared { None } else { Some(0) } })
        })
    }
}

/// Called by the merge functions of the simulation.
pub fn merge_call(key: &[u8], n: usize) -> Result<(), SimError> {
    with(|w| {
        let eff = w.decide(Op::Merge, 0, n as u64);
        w.event(Op::Merge, 0, hash_bytes(key) & 0xffff, n as u64, eff, 0);
        match eff {
            Effect::Err(_) => Err(SimError(w.call_no)),
            _ => Ok(()),
        }
    })
}
