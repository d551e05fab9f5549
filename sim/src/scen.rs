//! Scenarios that can be played again and again on the simulated world (C11, C12, C17), the merge
//! functions and the sorters of the simulation.

use std::borrow::Cow;
use std::cell::RefCell;
use std::io::{self, Cursor};
use std::num::NonZeroUsize;

use either::Either;
use grenad::{
    ChunkCreator, CompressionType, CursorVec, MergeFunction, Merger, Reader, SortAlgorithm, Sorter,
    SorterBuilder, TempFileChunk,
};

use crate::ctx::*;
use crate::gen::*;
use crate::props::read::{gen_bound, CurOp};
use crate::tape::{mix2, Rng, Tape};
use crate::world::{self, SimChunks, SimError, SimFile};

// ---------------------------------------------------------------------------------------------
// merge functions

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MfKind {
    Concat,
    First,
    Last,
    Max,
    Sum,
    /// not associative, only for mergers: tells how many values there were
    Bracket,
    /// several values become the empty value
    Empty,
    /// the key decides: the first value for some keys, the last for the others
    Keyed,
}

impl MfKind {
    pub fn at(self, key: &[u8]) -> MfKind {
        match self {
            MfKind::Keyed => {
                let h = key.iter().fold(key.len() as u32, |a, b| a.wrapping_mul(31).wrapping_add(*b as u32));
                if (h ^ (h >> 5)) & 1 == 0 {
                    MfKind::First
                } else {
                    MfKind::Last
                }
            }
            k => k,
        }
    }
}

pub type MergeLog = Vec<(Vec<u8>, Vec<Vec<u8>>)>;

thread_local! {
    static MERGES: RefCell<Option<MergeLog>> = const { RefCell::new(None) };
}

pub fn record_merges(on: bool) {
    MERGES.with(|m| *m.borrow_mut() = if on { Some(Vec::new()) } else { None });
}
pub fn take_merges() -> MergeLog {
    MERGES.with(|m| m.borrow_mut().take()).unwrap_or_default()
}

#[derive(Clone, Copy, Debug)]
pub struct SimMf(pub MfKind);

/// The ways to hand a merge function over: by value or by reference, in either side of an `Either`.
pub type AnyMf = Either<SimMf, Either<&'static SimMf, SimMf>>;

pub fn any_mf(kind: MfKind, door: u64) -> AnyMf {
    static ALL: [SimMf; 8] = [
        SimMf(MfKind::Concat),
        SimMf(MfKind::First),
        SimMf(MfKind::Last),
        SimMf(MfKind::Max),
        SimMf(MfKind::Sum),
        SimMf(MfKind::Bracket),
        SimMf(MfKind::Empty),
        SimMf(MfKind::Keyed),
    ];
    match door % 4 {
        1 => Either::Right(Either::Left(ALL.iter().find(|m| m.0 == kind).unwrap())),
        2 => Either::Right(Either::Right(SimMf(kind))),
        _ => Either::Left(SimMf(kind)),
    }
}

pub fn reference_merge(kind: MfKind, vals: &[Vec<u8>]) -> Vec<u8> {
    if vals.len() == 1 {
        return vals[0].clone();
    }
    match kind {
        MfKind::Concat => vals.concat(),
        MfKind::First => vals[0].clone(),
        MfKind::Last => vals[vals.len() - 1].clone(),
        MfKind::Max => vals.iter().max().unwrap().clone(),
        MfKind::Sum => vals.iter().fold(0u32, |a, v| a.wrapping_add(num(v))).to_be_bytes().to_vec(),
        MfKind::Bracket => {
            let mut out = format!("{}[", vals.len()).into_bytes();
            for v in vals {
                out.extend_from_slice(v);
                out.push(b',');
            }
            out.push(b']');
            out
        }
        MfKind::Empty => Vec::new(),
        MfKind::Keyed => panic!("use MfKind::at"),
    }
}

fn num(v: &[u8]) -> u32 {
    v.iter().fold(0u32, |a, b| a.wrapping_mul(256).wrapping_add(*b as u32))
}

impl MergeFunction for SimMf {
    type Error = SimError;
    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, SimError> {
        world::harness(|| {
            MERGES.with(|m| {
                if let Some(l) = m.borrow_mut().as_mut() {
                    l.push((key.to_vec(), values.iter().map(|v| v.to_vec()).collect()));
                }
            })
        });
        world::merge_call(key, values.len())?;
        if values.is_empty() {
            // never expected; do not panic inside the code under test
            return Ok(Cow::Owned(b"merge of nothing".to_vec()));
        }
        if values.len() == 1 {
            return Ok(values[0].clone());
        }
        Ok(match self.0.at(key) {
            MfKind::First => values[0].clone(),
            MfKind::Last => values[values.len() - 1].clone(),
            MfKind::Max => values.iter().max().unwrap().clone(),
            k => {
                let v: Vec<Vec<u8>> = values.iter().map(|v| v.to_vec()).collect();
                Cow::Owned(reference_merge(k, &v))
            }
        })
    }
}

// ---------------------------------------------------------------------------------------------
// sorters

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Storage {
    Sim,
    SimShared,
    CursorVec,
    TempFile,
}

#[derive(Clone, Debug)]
pub struct SCfg {
    /// minimum budget and initial buffer size through the hook
    pub limits: Option<(usize, usize)>,
    pub dump: Option<usize>,
    pub realloc: bool,
    pub max_chunks: Option<usize>,
    pub codec: Option<CompressionType>,
    pub level: Option<u32>,
    pub block_size: Option<usize>,
    pub interval: Option<usize>,
    pub levels: Option<u8>,
    pub unstable: bool,
    pub par: bool,
    pub par_seed: u64,
    pub threads: usize,
    pub storage: Storage,
    pub creator_first: bool,
    pub keep: bool,
    pub err_style: u8,
}

impl SCfg {
    pub fn budget(&self) -> usize {
        let min = self.limits.map_or(10_485_760, |l| l.0);
        match self.dump {
            Some(d) => d.max(min),
            None => 1_073_741_824,
        }
    }
    pub fn max_nb_chunks(&self) -> usize {
        self.max_chunks.unwrap_or(25).max(1)
    }
}

pub fn gen_scfg(t: &mut Tape) -> SCfg {
    let budget = match t.weighted(&[4, 3, 2]) {
        0 => t.pick(&[1024usize, 256, 64, 16, 4096]),
        1 => t.range(16, 3000),
        _ => t.pick(&[512usize, 2048, 8192, 40_000, 1 << 17]),
    };
    let initial = match t.weighted(&[3, 3, 1]) {
        0 => budget.min(t.pick(&[256usize, 16, 64, 1024, 48])),
        1 => t.range(1, budget),
        _ => budget,
    }
    .max(1);
    let heavy = t.chance(1, 4);
    SCfg {
        limits: Some((budget, initial)),
        dump: Some(if t.chance(1, 3) { 0 } else { budget + t.below(budget + 1) }),
        realloc: !t.chance(1, 3),
        max_chunks: match t.weighted(&[4, 2, 1]) {
            0 => Some(t.pick(&[2usize, 1, 3, 4, 0])),
            1 => Some(t.range(1, 12)),
            _ => None,
        },
        codec: if heavy || t.chance(1, 4) { Some(gen_codec(t)) } else { None },
        level: if heavy && t.chance(1, 3) { Some(t.draw(4) as u32) } else { None },
        block_size: match t.weighted(&[3, 3, 1]) {
            0 => None,
            1 => Some(t.pick(&[1024, 0, 2000, 8192, 1 << 32, (1 << 32) + 1100])),
            _ => Some(t.range(1024, 9000)),
        },
        interval: if t.chance(1, 3) { Some(t.pick(&[8usize, 1, 2, 3, 1000, 256, 1 << 32, (1 << 32) + 2, 65537])) } else { None },
        levels: if t.chance(1, 3) { Some(t.pick(&[1u8, 0, 2, 3, 9])) } else { None },
        unstable: t.chance(1, 3),
        par: t.chance(1, 3),
        par_seed: t.draw(1 << 40),
        threads: t.range(1, 16),
        storage: match t.weighted(&[14, 4, 4, 1]) {
            0 => Storage::Sim,
            1 => Storage::SimShared,
            2 => Storage::CursorVec,
            _ => {
                if t.chance(1, 4) {
                    Storage::TempFile
                } else {
                    Storage::Sim
                }
            }
        },
        creator_first: t.chance(1, 2),
        keep: false,
        err_style: 0,
    }
}

fn configure<CC>(b: &mut SorterBuilder<AnyMf, CC>, c: &SCfg) {
    if let Some(x) = c.dump {
        b.dump_threshold(x);
    }
    if !c.realloc {
        b.allow_realloc(false);
    }
    if let Some(x) = c.max_chunks {
        b.max_nb_chunks(x);
    }
    if let Some(x) = c.codec {
        b.chunk_compression_type(x);
    }
    if let Some(x) = c.level {
        b.chunk_compression_level(x);
    }
    if let Some(x) = c.block_size {
        b.block_size(x);
    }
    if let Some(x) = c.interval {
        b.index_key_interval(NonZeroUsize::new(x.max(1)).unwrap());
    }
    if let Some(x) = c.levels {
        b.index_levels(x);
    }
    if c.unstable {
        b.sort_algorithm(SortAlgorithm::Unstable);
    }
    if c.par {
        b.sort_in_parallel(true);
    }
}

/// Builds a sorter; the schedule of its parallel sorts is installed here.
pub fn build_sorter<CC: ChunkCreator>(c: &SCfg, mf: MfKind, cc: CC) -> Sorter<AnyMf, CC> {
    grenad::verif_hooks::set_sorter_limits(c.limits);
    rayon_core::sim::install(c.par_seed, c.threads);
    let mf = any_mf(mf, c.par_seed >> 3);
    let mut b = match (c.par_seed >> 5) & 1 {
        0 => SorterBuilder::new(mf),
        _ => Sorter::builder(mf),
    };
    if c.creator_first {
        let mut b = b.chunk_creator(cc);
        configure(&mut b, c);
        b.build()
    } else {
        configure(&mut b, c);
        b.chunk_creator(cc).build()
    }
}

#[derive(Clone, Debug)]
pub enum SortOut {
    Stream,
    Writer(WCfg),
    Cursors,
}

/// Insert sequences for sorters.
#[derive(Clone, Copy, Debug)]
pub struct InsOpts {
    pub max: usize,
    pub max_bytes: usize,
    /// rough budget, to draw interesting sizes
    pub budget: usize,
    /// no entry larger than this
    pub cap: usize,
    /// at least a third of `max` entries
    pub many: bool,
}

/// Self-delimiting value: length, index, filler.
pub fn tagged_value(i: u32, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    v.extend_from_slice(&((len + 8) as u32).to_be_bytes());
    v.extend_from_slice(&i.to_be_bytes());
    v.extend(std::iter::repeat(i as u8).take(len));
    v
}

pub fn split_tagged(mut v: &[u8]) -> Option<Vec<&[u8]>> {
    let mut out = Vec::new();
    while !v.is_empty() {
        if v.len() < 8 {
            return None;
        }
        let n = u32::from_be_bytes(v[..4].try_into().unwrap()) as usize;
        if n < 8 || n > v.len() {
            return None;
        }
        out.push(&v[..n]);
        v = &v[n..];
    }
    Some(out)
}

pub fn gen_inserts(t: &mut Tape, mf: MfKind, o: InsOpts) -> Vec<Kv> {
    let n = match t.weighted(&[3, 5, 1]) {
        _ if o.many => t.range(o.max / 3, o.max),
        0 => t.range(0, 12.min(o.max)),
        1 => t.range(0, 200.min(o.max)),
        _ => t.range(0, o.max),
    };
    let distinct = match t.weighted(&[4, 3, 2]) {
        0 => t.range(1, 8),
        1 => t.range(1, n.max(1)),
        _ => n.max(1) * 4,
    } as u64;
    let order = t.draw(5);
    let keystyle = t.draw(4);
    let sizes = t.weighted(if o.many { &[5, 3, 0, 0] } else { &[5, 3, 2, 1] });
    let small = t.range(0, 40);
    let seed = t.seed();
    let mut rng = Rng(seed);
    let mut out = Vec::with_capacity(n);
    let mut total = 0usize;
    for i in 0..n {
        let x = match order {
            0 => rng.below(distinct),
            1 => i as u64 % distinct,
            2 => distinct - 1 - (i as u64 % distinct),
            3 => i as u64 * distinct / n.max(1) as u64,
            _ => rng.below(distinct.min(3)),
        };
        let key = match keystyle {
            0 => (x as u32).to_be_bytes().to_vec(),
            1 => {
                // prefix related, the empty key included
                let mut k = Vec::new();
                let mut y = x;
                while y > 0 {
                    k.push((y % 3) as u8);
                    y /= 3;
                }
                k
            }
            2 => {
                let mut k = vec![0xffu8; (x % 5) as usize];
                k.extend_from_slice(&(x as u16).to_le_bytes());
                k
            }
            _ => {
                let mut k = bytes_from(mix2(seed, x), (mix2(seed, x) % 60) as usize, 1);
                k.extend_from_slice(&(x as u32).to_be_bytes());
                k
            }
        };
        let len = match sizes {
            0 => small,
            1 => rng.below(small as u64 * 2 + 1) as usize,
            2 => {
                if rng.below(8) == 0 {
                    rng.below(o.budget as u64 + 1) as usize
                } else {
                    rng.below(30) as usize
                }
            }
            _ => {
                if rng.below(12) == 0 {
                    o.budget + rng.below(3 * o.budget as u64 + 1) as usize
                } else {
                    rng.below(20) as usize
                }
            }
        };
        let len = len.min(o.cap);
        let val = match mf {
            MfKind::Sum => (mix2(seed ^ 1, i as u64) as u32).to_be_bytes().to_vec(),
            _ => tagged_value(i as u32, len),
        };
        total += key.len() + val.len();
        if total > o.max_bytes {
            break;
        }
        out.push((key, val));
    }
    if o.cap >= 60_000 && !o.many && t.chance(1, 40) {
        // long keys, around the boundaries of their length
        let len = t.pick(&[300usize, 127, 128, 16_384, 65_535, 65_536, 70_000, 131_072]);
        let one_in = t.range(1, 4) as u64;
        let all_ff = t.chance(1, 2);
        if len > 1000 {
            out.truncate(10);
        }
        for (k, _) in out.iter_mut() {
            let h = crate::world::hash_bytes(k);
            if h % one_in == 0 {
                let n = k.len().max(len);
                k.resize(n, if all_ff { 0xff } else { b'k' });
            }
        }
    }
    if o.cap >= 60_000 && !o.many && mf != MfKind::Sum && !out.is_empty() && t.chance(1, 2000) {
        out.truncate(6);
        let i = t.below(out.len());
        let len = t.pick(&[5_000_000usize, 1 << 21, (1 << 24) + 1]);
        out[i].1 = tagged_value(i as u32, len);
    }
    if mf != MfKind::Sum && mf != MfKind::Concat && t.chance(1, 4) {
        // empty values (not distinguishable, only for merge functions that do not need it)
        let m = t.range(1, 4);
        for (i, e) in out.iter_mut().enumerate() {
            if i % m == 0 {
                e.1.clear();
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// playing scenarios

#[derive(Debug)]
pub enum AErr {
    Io(io::Error),
    G(grenad::Error<SimError>),
}
impl From<io::Error> for AErr {
    fn from(e: io::Error) -> Self {
        AErr::Io(e)
    }
}
impl From<grenad::Error<SimError>> for AErr {
    fn from(e: grenad::Error<SimError>) -> Self {
        AErr::G(e)
    }
}
impl From<grenad::Error> for AErr {
    fn from(e: grenad::Error) -> Self {
        AErr::G(match e {
            grenad::Error::Io(e) => grenad::Error::Io(e),
            grenad::Error::InvalidCompressionType => grenad::Error::InvalidCompressionType,
            grenad::Error::InvalidFormatVersion => grenad::Error::InvalidFormatVersion,
            grenad::Error::Merge(x) => match x {},
        })
    }
}

#[derive(Debug)]
pub enum StepOut {
    Ok,
    Err(AErr),
    Panic(PanicInfo),
}

#[derive(Debug)]
pub struct StepRec {
    pub label: &'static str,
    pub api_no: u64,
    pub hash: u64,
    pub out: StepOut,
}

impl StepRec {
    /// For comparisons of two plays.
    pub fn same(&self, o: &StepRec) -> bool {
        self.label == o.label
            && self.hash == o.hash
            && match (&self.out, &o.out) {
                (StepOut::Ok, StepOut::Ok) => true,
                (StepOut::Err(a), StepOut::Err(b)) => format!("{a:?}") == format!("{b:?}"),
                (StepOut::Panic(a), StepOut::Panic(b)) => a.livelock == b.livelock && a.msg == b.msg,
                _ => false,
            }
    }
    pub fn show(&self) -> String {
        match &self.out {
            StepOut::Ok => format!("{} -> Ok (digest {:x})", self.label, self.hash),
            StepOut::Err(e) => format!("{} -> Err({e:?})", self.label),
            StepOut::Panic(p) => format!("{} -> panic: {}", self.label, p.msg),
        }
    }
}

#[derive(Default)]
pub struct Player {
    pub log: Vec<StepRec>,
    /// bytes observed in sinks and chunks: (name, bytes)
    pub outputs: Vec<(String, Vec<u8>)>,
    /// files whose storage has a failure it was never asked about: (file, call number)
    pub unreported: Vec<(usize, u64)>,
}

pub fn hkv(g: Option<(&[u8], &[u8])>) -> u64 {
    match g {
        None => 1,
        Some((k, v)) => mix2(world::hash_bytes(k), world::hash_bytes(v)) | 2,
    }
}

impl Player {
    /// A public call; what it returned is condensed by the closure into a number.
    pub fn step<T, E: Into<AErr>>(
        &mut self,
        label: &'static str,
        f: impl FnOnce() -> Result<(T, u64), E>,
    ) -> Option<T> {
        let r = guard(label, f);
        let api_no = world::with(|w| w.api_no);
        match r {
            Ok(Ok((v, hash))) => {
                self.log.push(StepRec { label, api_no, hash, out: StepOut::Ok });
                Some(v)
            }
            Ok(Err(e)) => {
                self.log.push(StepRec { label, api_no, hash: 0, out: StepOut::Err(e.into()) });
                None
            }
            Err(p) => {
                self.log.push(StepRec { label, api_no, hash: 0, out: StepOut::Panic(p) });
                None
            }
        }
    }
    pub fn drop_value<T>(&mut self, v: T) {
        if let Err(p) = guard("drop", move || drop(v)) {
            let api_no = world::with(|w| w.api_no);
            self.log.push(StepRec { label: "drop", api_no, hash: 0, out: StepOut::Panic(p) });
        }
    }
}

pub type Bounds = (std::ops::Bound<Vec<u8>>, std::ops::Bound<Vec<u8>>);

#[derive(Clone, Debug)]
pub enum ItSpec {
    Range(Bounds),
    RevRange(Bounds),
    Prefix(Vec<u8>),
    RevPrefix(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Scen {
    Write { cfg: WCfg, entries: Vec<Kv>, finish: bool },
    Read { image: Vec<u8>, base: u64, ops: Vec<(CurOp, Vec<u8>)>, shared: bool },
    Iter { image: Vec<u8>, base: u64, its: Vec<ItSpec>, shared: bool, sched: u64 },
    Merge { images: Vec<Vec<u8>>, mf: MfKind, out: Option<WCfg>, shared: bool },
    Sort { cfg: SCfg, mf: MfKind, ins: Vec<Kv>, out: SortOut },
}

#[derive(Clone, Copy)]
pub struct ScenOpts {
    pub max_bytes: usize,
    pub max_entries: usize,
    pub ops: usize,
    pub real_storage: bool,
}

pub fn gen_image(ctx: &mut Ctx, o: &ScenOpts) -> R<(Vec<u8>, Vec<Kv>)> {
    let cfg = gen_cfg_levels(&mut ctx.t, false);
    let mut entries = gen_entries(
        &mut ctx.t,
        DataOpts { max_entries: o.max_entries, max_bytes: o.max_bytes, big: o.max_bytes > 50_000 },
    );
    if aim_length(&mut ctx.t, &cfg, &mut entries, 12) {
        ctx.probe("aimed_file_length");
    }
    ctx.describe(|| format!("file {cfg:?}; {}", describe_entries(&entries)));
    if ctx.t.chance(1, 10) {
        ctx.probe("version_1_image");
        let img = crate::fmt::encode(1, &entries, cfg.codec as u8, cfg.level, cfg.block_size, cfg.interval, 0);
        return Ok((img, entries));
    }
    let id = make_file(ctx, &cfg, &entries)?;
    let img = world::file_bytes(id);
    Ok((img, entries))
}

pub fn gen_mf(t: &mut Tape) -> MfKind {
    [MfKind::Concat, MfKind::First, MfKind::Last, MfKind::Max, MfKind::Sum, MfKind::Keyed][t.weighted(&[5, 1, 1, 1, 1, 1])]
}

pub fn gen_read_ops(t: &mut Tape, entries: &[Kv], max: usize) -> Vec<(CurOp, Vec<u8>)> {
    t.list(1, max, |t, _| {
        let op = t.pick(&[
            CurOp::Next,
            CurOp::Prev,
            CurOp::First,
            CurOp::Last,
            CurOp::Ge,
            CurOp::Le,
            CurOp::Eq,
            CurOp::Reset,
            CurOp::Clone,
        ]);
        let q = if matches!(op, CurOp::Ge | CurOp::Le | CurOp::Eq) {
            gen_probe(t, entries)
        } else {
            Vec::new()
        };
        (op, q)
    })
}

pub fn gen_its(t: &mut Tape, entries: &[Kv]) -> Vec<ItSpec> {
    t.list(1, 4, |t, _| match t.draw(4) {
        0 => ItSpec::Range((gen_bound(t, entries), gen_bound(t, entries))),
        1 => ItSpec::RevRange((gen_bound(t, entries), gen_bound(t, entries))),
        k => {
            let mut p = gen_probe(t, entries);
            let n = t.range(0, p.len());
            p.truncate(n);
            if k == 2 {
                ItSpec::Prefix(p)
            } else {
                ItSpec::RevPrefix(p)
            }
        }
    })
}

pub fn gen_scen(ctx: &mut Ctx, o: &ScenOpts) -> R<Scen> {
    Ok(match ctx.t.weighted(&[3, 3, 3, 3, 5]) {
        0 => {
            let cfg = gen_cfg_levels(&mut ctx.t, false);
            let mut entries = gen_entries(
                &mut ctx.t,
                DataOpts { max_entries: o.max_entries, max_bytes: o.max_bytes, big: o.max_bytes > 50_000 },
            );
            if aim_length(&mut ctx.t, &cfg, &mut entries, 12) {
                ctx.probe("aimed_file_length");
            }
            ctx.describe(|| format!("writer {cfg:?}; {}", describe_entries(&entries)));
            Scen::Write { cfg, entries, finish: ctx.t.chance(1, 3) }
        }
        1 => {
            let (image, entries) = gen_image(ctx, o)?;
            let ops = gen_read_ops(&mut ctx.t, &entries, o.ops);
            ctx.describe(|| format!("reader, {} cursor operations", ops.len()));
            Scen::Read { image, base: 0, ops, shared: ctx.t.chance(1, 4) }
        }
        2 => {
            let (image, entries) = gen_image(ctx, o)?;
            let its = gen_its(&mut ctx.t, &entries);
            ctx.describe(|| format!("iterators {its:?}"));
            Scen::Iter { image, base: 0, its, shared: ctx.t.chance(1, 4), sched: ctx.t.draw(1 << 32) }
        }
        3 => {
            let n = ctx.t.range(0, 4);
            let mut images: Vec<Vec<u8>> = Vec::new();
            for i in 0..n {
                if i > 0 && ctx.t.chance(1, 3) {
                    let j = ctx.t.below(i);
                    let img: Vec<u8> = images[j].clone();
                    images.push(img);
                } else {
                    let oo = ScenOpts { max_bytes: o.max_bytes / 2, max_entries: o.max_entries / 2, ..*o };
                    images.push(gen_image(ctx, &oo)?.0);
                }
            }
            let mf = ctx.t.pick(&[MfKind::Bracket, MfKind::Concat, MfKind::First, MfKind::Last, MfKind::Empty, MfKind::Keyed]);
            let out = if ctx.t.chance(1, 2) { Some(gen_cfg_levels(&mut ctx.t, false)) } else { None };
            ctx.describe(|| format!("merger of {n} sources, {mf:?}, into writer: {out:?}"));
            Scen::Merge { images, mf, out, shared: ctx.t.chance(1, 4) }
        }
        _ => {
            let mut cfg = gen_scfg(&mut ctx.t);
            if !o.real_storage && cfg.storage != Storage::SimShared {
                cfg.storage = Storage::Sim;
            }
            cfg.keep = true;
            let mf = gen_mf(&mut ctx.t);
            let budget = cfg.budget();
            let ins = gen_inserts(
                &mut ctx.t,
                mf,
                InsOpts { max: o.max_entries, max_bytes: o.max_bytes, budget: budget.min(20_000), cap: o.max_bytes, many: false },
            );
            let out = match ctx.t.draw(3) {
                0 => SortOut::Stream,
                1 => SortOut::Writer(gen_cfg_levels(&mut ctx.t, false)),
                _ => SortOut::Cursors,
            };
            cfg.err_style = ctx.t.weighted(&[4, 1, 1]) as u8;
            ctx.describe(|| format!("sorter {cfg:?} {mf:?}, {} inserts, out {out:?}", ins.len()));
            Scen::Sort { cfg, mf, ins, out }
        }
    })
}

fn stream_into<R2: io::Read + io::Seek>(p: &mut Player, mut it: grenad::MergerIter<R2, AnyMf>) {
    loop {
        let r = p.step("MergerIter::next", || it.next().map(|g| (g.is_some(), hkv(g))));
        match r {
            Some(true) => {}
            _ => break,
        }
    }
    p.drop_value(it);
}

/// Plays the scenario once. The files it creates are removed again at the end.
pub fn play(s: &Scen) -> Player {
    let mut p = Player::default();
    let base = world::with(|w| w.files.len());
    play_inner(s, &mut p, base);
    world::harness(|| {
        world::with(|w| {
            for (i, f) in w.files.iter().enumerate().skip(base) {
                if let Some((_, n)) = f.deferred {
                    p.unreported.push((i - base, n));
                }
            }
        })
    });
    world::with(|w| w.files.truncate(base));
    p
}

fn new_image(img: &[u8]) -> usize {
    world::new_file(img.to_vec())
}

fn play_inner(s: &Scen, p: &mut Player, base: usize) {
    match s {
        Scen::Write { cfg, entries, finish } => {
            let sink = SimFile::create();
            let id = sink.id;
            let Some(mut w) =
                p.step::<_, io::Error>("WriterBuilder::build", || Ok((cfg.build(sink), 0)))
            else {
                return;
            };
            for (k, v) in entries {
                if p.step("Writer::insert", || w.insert(k, v).map(|_| ((), 0))).is_none() {
                    p.drop_value(w);
                    return;
                }
            }
            if *finish {
                p.step("Writer::finish", || w.finish().map(|_| ((), 0)));
            } else {
                p.step("Writer::into_inner", || w.into_inner().map(|s| (s, 0)));
            }
            p.outputs.push(("sink".into(), world::file_bytes(id)));
        }
        Scen::Read { image, base, ops, shared } => {
            let id = world::new_file_at(*base, image.to_vec());
            let h = reader_handle(id, *shared);
            let Some(r) = p.step("Reader::new", || {
                Reader::new(h).map(|r| {
                    let x = mix2(r.len(), r.compression_type() as u64 * 4 + r.file_version() as u64);
                    (r, x)
                })
            }) else {
                return;
            };
            let Some(c) = p.step("Reader::into_cursor", || r.into_cursor().map(|c| (c, 0))) else { return };
            let mut cs = vec![c];
            for (i, (op, q)) in ops.iter().enumerate() {
                let n = cs.len();
                let c = &mut cs[i % n];
                let ok = match op {
                    CurOp::Reset => p
                        .step::<_, io::Error>("ReaderCursor::reset", || {
                            c.reset();
                            Ok(((), 0))
                        })
                        .is_some(),
                    CurOp::Clone => {
                        match p.step::<_, io::Error>("ReaderCursor::clone", || Ok((c.clone(), 0))) {
                            Some(c2) => {
                                if n < 3 {
                                    cs.push(c2);
                                } else {
                                    cs[(i + 1) % n] = c2;
                                }
                                true
                            }
                            None => false,
                        }
                    }
                    _ => {
                        let label = crate::props::read::seek_name(*op);
                        p.step(label, || {
                            match op {
                                CurOp::First => c.move_on_first(),
                                CurOp::Last => c.move_on_last(),
                                CurOp::Next => c.move_on_next(),
                                CurOp::Prev => c.move_on_prev(),
                                CurOp::Ge => c.move_on_key_greater_than_or_equal_to(q),
                                CurOp::Le => c.move_on_key_lower_than_or_equal_to(q),
                                _ => c.move_on_key_equal_to(q),
                            }
                            .map(|g| ((), hkv(g)))
                        })
                        .is_some()
                            && p.step::<_, io::Error>("ReaderCursor::current", || Ok(((), hkv(c.current()))))
                                .is_some()
                    }
                };
                // a failed move leaves a usable cursor
                if !ok && matches!(p.log.last(), Some(StepRec { out: StepOut::Panic(_), .. })) {
                    break;
                }
            }
            p.drop_value(cs);
        }
        Scen::Iter { image, base, its, shared, sched } => {
            let id = world::new_file_at(*base, image.to_vec());
            let h = reader_handle(id, *shared);
            let Some(r) = p.step("Reader::new", || Reader::new(h).map(|r| (r, 0))) else { return };
            enum It {
                R(grenad::RangeIter<SimFile>),
                RR(grenad::RevRangeIter<SimFile>),
                P(grenad::PrefixIter<SimFile>),
                RP(grenad::RevPrefixIter<SimFile>),
            }
            let mut live: Vec<It> = Vec::new();
            for s in its {
                let r = r.clone();
                let it = p.step("Reader::into_*_iter", || match s.clone() {
                    ItSpec::Range(b) => r.into_range_iter::<_, Vec<u8>>(b).map(|i| (It::R(i), 0)),
                    ItSpec::RevRange(b) => r.into_rev_range_iter::<_, Vec<u8>>(b).map(|i| (It::RR(i), 0)),
                    ItSpec::Prefix(x) => r.into_prefix_iter(x).map(|i| (It::P(i), 0)),
                    ItSpec::RevPrefix(x) => r.into_rev_prefix_iter(x).map(|i| (It::RP(i), 0)),
                });
                match it {
                    Some(i) => live.push(i),
                    None => return,
                }
            }
            let mut k = 0u64;
            while !live.is_empty() {
                k += 1;
                let i = if *sched == 0 { 0 } else { (mix2(*sched, k) % live.len() as u64) as usize };
                let it = &mut live[i];
                let r = match it {
                    It::R(i) => p.step("RangeIter::next", || i.next().map(|g| (g.is_some(), hkv(g)))),
                    It::RR(i) => p.step("RevRangeIter::next", || i.next().map(|g| (g.is_some(), hkv(g)))),
                    It::P(i) => p.step("PrefixIter::next", || i.next().map(|g| (g.is_some(), hkv(g)))),
                    It::RP(i) => p.step("RevPrefixIter::next", || i.next().map(|g| (g.is_some(), hkv(g)))),
                };
                match r {
                    Some(true) => {}
                    Some(false) => {
                        let it = live.swap_remove(i);
                        p.drop_value(it);
                    }
                    None => break,
                }
            }
            p.drop_value(live);
            p.drop_value(r);
        }
        Scen::Merge { images, mf, out, shared } => {
            let mut b = Merger::builder(any_mf(*mf, images.len() as u64));
            for img in images {
                let id = new_image(img);
                let h = reader_handle(id, *shared);
                let Some(r) = p.step("Reader::new", || Reader::new(h).map(|r| (r, 0))) else { return };
                let Some(c) = p.step("Reader::into_cursor", || r.into_cursor().map(|c| (c, 0))) else {
                    return;
                };
                b.push(c);
            }
            let m = b.build();
            match out {
                None => {
                    if let Some(it) = p.step("Merger::into_stream_merger_iter", || {
                        m.into_stream_merger_iter().map(|i| (i, 0))
                    }) {
                        stream_into(p, it);
                    }
                }
                Some(cfg) => {
                    let sink = SimFile::create();
                    let id = sink.id;
                    let Some(mut w) =
                        p.step::<_, io::Error>("WriterBuilder::build", || Ok((cfg.build(sink), 0)))
                    else {
                        return;
                    };
                    if p.step("Merger::write_into_stream_writer", || {
                        m.write_into_stream_writer(&mut w).map(|_| ((), 0))
                    })
                    .is_some()
                    {
                        p.step("Writer::into_inner", || w.into_inner().map(|s| (s, 0)));
                    } else {
                        p.drop_value(w);
                    }
                    p.outputs.push(("sink".into(), world::file_bytes(id)));
                }
            }
        }
        Scen::Sort { cfg, mf, ins, out } => match cfg.storage {
            Storage::CursorVec => play_sort(p, cfg, *mf, ins, out, CursorVec, base),
            Storage::TempFile => play_sort(p, cfg, *mf, ins, out, TempFileChunk, base),
            st => {
                let cc = SimChunks { keep: cfg.keep, shared: st == Storage::SimShared, err_style: cfg.err_style };
                play_sort(p, cfg, *mf, ins, out, cc, base)
            }
        },
    }
}

/// What a sorter says about itself; only that the numbers can be computed is judged.
pub trait Estimate: ChunkCreator + Sized {
    fn estimate<MF>(_: &Sorter<MF, Self>) -> u64 {
        0
    }
}

impl Estimate for SimChunks {}
impl Estimate for CursorVec {}
impl Estimate for TempFileChunk {
    fn estimate<MF>(s: &Sorter<MF, Self>) -> u64 {
        s.estimated_dumped_memory_usage()
    }
}

struct Nowhere;

impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

fn play_sort<CC: Estimate>(
    p: &mut Player,
    cfg: &SCfg,
    mf: MfKind,
    ins: &[Kv],
    out: &SortOut,
    cc: CC,
    base: usize,
) {
    let Some(mut s) = p.step::<_, io::Error>("SorterBuilder::build", || Ok((build_sorter(cfg, mf, cc), 0)))
    else {
        return;
    };
    for (k, v) in ins {
        let r = p.step("Sorter::insert", || {
            let r = s.insert(k, v).map(|_| ((), 0));
            CC::estimate(&s);
            r
        });
        if r.is_none() {
            p.drop_value(s);
            return;
        }
    }
    p.step::<_, io::Error>("Sorter's Debug", || {
        let _ = std::fmt::Write::write_fmt(&mut Nowhere, format_args!("{s:?}"));
        Ok(((), 0))
    });
    match out {
        SortOut::Stream => {
            if let Some(it) =
                p.step("Sorter::into_stream_merger_iter", || s.into_stream_merger_iter().map(|i| (i, 0)))
            {
                stream_into(p, it);
            }
        }
        SortOut::Writer(wc) => {
            let sink = SimFile::create();
            let id = sink.id;
            let Some(mut w) =
                p.step::<_, io::Error>("WriterBuilder::build", || Ok((wc.build(sink), 0)))
            else {
                return;
            };
            if p.step("Sorter::write_into_stream_writer", || {
                s.write_into_stream_writer(&mut w).map(|_| ((), 0))
            })
            .is_some()
            {
                p.step("Writer::into_inner", || w.into_inner().map(|s| (s, 0)));
            } else {
                p.drop_value(w);
            }
            p.outputs.push(("sink".into(), world::file_bytes(id)));
        }
        SortOut::Cursors => {
            if let Some(cs) =
                p.step("Sorter::into_reader_cursors", || {
                    s.into_reader_cursors().map(|c| {
                        let n = c.len() as u64;
                        (c, n)
                    })
                })
            {
                let mut b = Merger::builder(any_mf(mf, cfg.par_seed >> 6));
                b.extend(cs);
                let m = b.build();
                if let Some(it) = p.step("Merger::into_stream_merger_iter", || {
                    m.into_stream_merger_iter().map(|i| (i, 0))
                }) {
                    stream_into(p, it);
                }
            }
        }
    }
    if cfg.keep && matches!(cfg.storage, Storage::Sim | Storage::SimShared) {
        world::harness(|| {
            world::with(|w| {
                for (i, f) in w.files.iter().enumerate().skip(base) {
                    if f.is_chunk {
                        p.outputs.push((format!("chunk {}", i - base), f.data.clone()));
                    }
                }
            })
        });
    }
}

#[allow(dead_code)]
pub fn cursor_of(v: Vec<u8>) -> Cursor<Vec<u8>> {
    Cursor::new(v)
}
