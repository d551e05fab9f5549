//! C01-C05: round trip, seeks, cursor histories, range and prefix iterators.

use std::ops::Bound;

use grenad::{FileVersion, PrefixIter, RangeIter, Reader, ReaderCursor, RevPrefixIter, RevRangeIter};

use crate::ctx::*;
use crate::fmt;
use crate::gen::*;
use crate::tape::Tape;
use crate::world::{self, Effect, FaultSpec, IoPlan, Op, SimFile};

pub type Cur = ReaderCursor<SimFile>;

pub fn open(id: usize, shared: bool) -> R<Reader<SimFile>> {
    let h = reader_handle(id, shared);
    call_ok("Reader::new", || Reader::new(h))
}

pub fn open_cursor(id: usize, shared: bool) -> R<Cur> {
    let r = open(id, shared)?;
    call_ok("Reader::into_cursor", || r.into_cursor())
}

pub fn check_step(
    label: &'static str,
    got: Result<Result<(), String>, grenad::Error>,
    fault_possible: bool,
) -> R<bool> {
    match got {
        Ok(Ok(())) => Ok(true),
        Ok(Err(m)) => violation("wrong-result", format!("{label} {m}")),
        Err(e) => {
            if fault_possible && world::with(|w| w.fired.iter().any(|f| f.api_no == w.api_no)) {
                Ok(false)
            } else {
                violation("spurious-error", format!("{label} failed without any failure: {e:?}"))
            }
        }
    }
}

pub fn scan_forward(c: &mut Cur, entries: &[Kv]) -> R<()> {
    for i in 0..=entries.len() {
        let want = if i < entries.len() { Some(i) } else { None };
        let got =
            call("ReaderCursor::move_on_next", || c.move_on_next().map(|g| same(g, entries, want)))?;
        check_step("forward scan: move_on_next", got, false)?;
    }
    Ok(())
}

pub fn scan_backward(c: &mut Cur, entries: &[Kv]) -> R<()> {
    for i in (0..=entries.len()).rev() {
        let want = i.checked_sub(1);
        let got =
            call("ReaderCursor::move_on_prev", || c.move_on_prev().map(|g| same(g, entries, want)))?;
        check_step("backward scan: move_on_prev", got, false)?;
    }
    Ok(())
}

pub fn c01(ctx: &mut Ctx) -> R<()> {
    let mut cfg = gen_cfg(&mut ctx.t);
    let big = ctx.tier == Tier::Thorough && ctx.t.chance(1, 20);
    let opts = if big {
        DataOpts { max_entries: 20_000, max_bytes: 3_000_000, big: true }
    } else {
        DataOpts::default()
    };
    let mut entries = gen_entries(&mut ctx.t, opts);
    let wide = widen(&mut ctx.t, &mut cfg, &mut entries, 200, usize::MAX);
    if wide {
        ctx.probe(if entries.len() > 65_536 { "over_65536_entries" } else { "wide_population" });
    }
    if aim_length(&mut ctx.t, &cfg, &mut entries, 40) {
        ctx.probe("aimed_file_length");
    }
    let wplan = IoPlan::draw_benign(&mut ctx.t);
    let rplan = IoPlan::draw_benign(&mut ctx.t);
    let shared = ctx.t.chance(1, 4);
    let finish = ctx.t.draw(3);
    ctx.describe(|| format!("{cfg:?}; {}", describe_entries(&entries)));

    world::install(wplan);
    let id = match finish {
        1 => {
            // Writer::finish drops the sink, another handle sees the file
            let sink = SimFile::create();
            let id = sink.id;
            let mut w = call("WriterBuilder::build", || cfg.build(sink))?;
            for (k, v) in &entries {
                call_ok("Writer::insert", || w.insert(k, v))?;
            }
            call_ok("Writer::finish", || w.finish())?;
            id
        }
        2 => {
            let mut w = call("WriterBuilder::memory", || cfg.memory())?;
            for (k, v) in &entries {
                call_ok("Writer::insert", || w.insert(k, v))?;
            }
            let v = call_ok("Writer::into_inner", || w.into_inner())?;
            world::new_file(v)
        }
        _ => write_file(&cfg, &entries)?,
    };

    world::install(rplan);
    let r = open(id, shared)?;
    if r.len() != entries.len() as u64 {
        return violation("count", format!("len() is {}, inserted {}", r.len(), entries.len()));
    }
    if r.is_empty() != entries.is_empty() {
        return violation("count", "is_empty() is wrong".to_string());
    }
    if r.compression_type() != cfg.codec {
        return violation("codec", format!("codec {:?}, configured {:?}", r.compression_type(), cfg.codec));
    }
    if r.file_version() != FileVersion::FormatV2 {
        return violation("version", "not a version 2 file".to_string());
    }
    let r2 = r.clone();
    let mut c = call_ok("Reader::into_cursor", || r.into_cursor())?;
    scan_forward(&mut c, &entries)?;
    if ctx.t.chance(1, 2) {
        call("ReaderCursor::reset", || c.reset())?;
        scan_backward(&mut c, &entries)?;
    } else {
        let mut c = call_ok("Reader::into_cursor", || r2.into_cursor())?;
        scan_backward(&mut c, &entries)?;
    }
    if ctx.t.chance(1, 4) {
        // the same scans through the iterator API
        let r = open(id, shared)?;
        let mut it = call_ok("Reader::into_range_iter", || r.into_range_iter::<_, Vec<u8>>(..))?;
        for i in 0..=entries.len() {
            let want = if i < entries.len() { Some(i) } else { None };
            let got = call("RangeIter::next", || it.next().map(|g| same(g, &entries, want)))?;
            check_step("RangeIter(..)::next", got, false)?;
        }
    }
    let blocks = world::with(|w| fmt::count_blocks(&w.files[id].data));
    ctx.nontrivial = blocks >= 3;
    if cfg.levels >= 2 && blocks as usize > cfg.levels as usize + 12 {
        ctx.probe("multi_block_index_levels");
    }
    if entries.is_empty() {
        ctx.probe("empty_file");
    }
    if entries.iter().any(|(k, v)| k.len() + v.len() > cfg.block_size.max(1024)) {
        ctx.probe("entry_larger_than_block");
    }
    if entries.first().is_some_and(|(k, _)| k.is_empty()) {
        ctx.probe("empty_key");
    }
    if cfg.levels == 255 {
        ctx.probe("levels_255");
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CurOp {
    First,
    Last,
    Next,
    Prev,
    Ge,
    Le,
    Eq,
    Reset,
    Clone,
    Current,
}

pub fn seek_name(op: CurOp) -> &'static str {
    match op {
        CurOp::First => "ReaderCursor::move_on_first",
        CurOp::Last => "ReaderCursor::move_on_last",
        CurOp::Next => "ReaderCursor::move_on_next",
        CurOp::Prev => "ReaderCursor::move_on_prev",
        CurOp::Ge => "ReaderCursor::move_on_key_greater_than_or_equal_to",
        CurOp::Le => "ReaderCursor::move_on_key_lower_than_or_equal_to",
        CurOp::Eq => "ReaderCursor::move_on_key_equal_to",
        CurOp::Reset => "ReaderCursor::reset",
        CurOp::Clone => "ReaderCursor::clone",
        CurOp::Current => "ReaderCursor::current",
    }
}

/// Executes a move, compares with the expectation (None: do not compare), returns what it returned:
/// Ok(Some(found)) or Ok(None) after a failure.
pub fn do_move(
    c: &mut Cur,
    op: CurOp,
    q: &[u8],
    entries: &[Kv],
    want: Option<Option<usize>>,
    faults: bool,
) -> R<Option<Option<Vec<u8>>>> {
    let label = seek_name(op);
    let got = call(label, || {
        let r = match op {
            CurOp::First => c.move_on_first(),
            CurOp::Last => c.move_on_last(),
            CurOp::Next => c.move_on_next(),
            CurOp::Prev => c.move_on_prev(),
            CurOp::Ge => c.move_on_key_greater_than_or_equal_to(q),
            CurOp::Le => c.move_on_key_lower_than_or_equal_to(q),
            CurOp::Eq => c.move_on_key_equal_to(q),
            _ => Ok(None),
        };
        r.map(|g| {
            let key = g.map(|(k, _)| k.to_vec());
            let cmp = match want {
                Some(want) => same(g, entries, want),
                None => Ok(()),
            };
            (key, cmp)
        })
    })?;
    let is_seek = matches!(op, CurOp::Ge | CurOp::Le | CurOp::Eq);
    match got {
        Ok((key, Ok(()))) => {
            world::note(key.as_ref().map_or(1, |k| world::hash_bytes(k)));
            world::trace(|| {
                format!(
                    "  {:?}{} -> {}",
                    op,
                    if is_seek { format!("({})", show(q)) } else { String::new() },
                    key.as_ref().map_or("None".into(), |k| show(k))
                )
            });
            Ok(Some(key))
        }
        Ok((_, Err(m))) => violation(
            format!("wrong-result:{op:?}"),
            format!("{label}{} {m}", if is_seek { format!("({})", show(q)) } else { String::new() }),
        ),
        Err(e) => {
            if faults && world::with(|w| w.fired.iter().any(|f| f.api_no == w.api_no)) {
                Ok(None)
            } else {
                violation("spurious-error", format!("{label} failed without any failure: {e:?}"))
            }
        }
    }
}

pub fn expect_abs(op: CurOp, q: &[u8], entries: &[Kv]) -> Option<usize> {
    match op {
        CurOp::First => {
            if entries.is_empty() {
                None
            } else {
                Some(0)
            }
        }
        CurOp::Last => entries.len().checked_sub(1),
        CurOp::Ge => ceil(entries, q),
        CurOp::Le => floor(entries, q),
        CurOp::Eq => exact(entries, q),
        _ => unreachable!(),
    }
}

fn fault_plan(t: &mut Tape, base: &IoPlan) -> IoPlan {
    let mut p = base.clone();
    p.faults.push(FaultSpec {
        ops: t.pick(&[1 << Op::Read as u8, 1 << Op::Seek as u8, 9]),
        file: None,
        nth: t.range(1, 12) as u64,
        effect: Effect::Err(t.below(16) as u8),
        sticky: t.chance(1, 3),
        seen: 0,
    });
    p
}

pub fn c02(ctx: &mut Ctx) -> R<()> {
    let mut cfg = gen_cfg_levels(&mut ctx.t, false);
    let opts = DataOpts { max_entries: 300, max_bytes: 99_000, big: true };
    let mut entries = gen_entries(&mut ctx.t, opts);
    if widen(&mut ctx.t, &mut cfg, &mut entries, 150, 70001) {
        ctx.probe("wide_population");
    } else if lengthen(&mut ctx.t, &mut entries, 300) {
        ctx.probe("long_common_prefix");
    } else if !entries.is_empty() && ctx.t.chance(1, 5000) {
        // few probes: every one loads the block
        entries.truncate(6);
        giant(&mut ctx.t, &mut entries, 1);
    }
    let plan = IoPlan::draw_benign(&mut ctx.t);
    ctx.describe(|| format!("{cfg:?}; {}", describe_entries(&entries)));
    world::install(IoPlan::canonical());
    let id = make_far_file(ctx, &cfg, &entries)?;
    world::install(plan.clone());
    let shared = ctx.t.chance(1, 4);
    let faults = ctx.t.chance(1, 4);
    let mut cursors: Vec<Cur> = Vec::new();
    let n_cursors = ctx.t.range(1, 3);
    for _ in 0..n_cursors {
        cursors.push(open_cursor(id, shared)?);
    }
    let mut fresh = vec![true; n_cursors];
    let small = entries.len() <= 12 && ctx.t.chance(1, 3);
    if small {
        // every equivalence class of every key, all three seeks
        let pick = ctx.t.seed();
        for i in 0..entries.len().max(1) {
            for class in 0..9u64 {
                let q = if entries.is_empty() {
                    vec![0xffu8; class as usize]
                } else {
                    probe_of(&entries[i].0, class, || pick ^ i as u64)
                };
                for op in [CurOp::Ge, CurOp::Le, CurOp::Eq] {
                    let want = expect_abs(op, &q, &entries);
                    let c = &mut cursors[0];
                    if !std::mem::replace(&mut fresh[0], false) {
                        call("ReaderCursor::reset", || c.reset())?;
                    }
                    do_move(c, op, &q, &entries, Some(want), false)?;
                }
            }
        }
        ctx.probe("all_classes_enumerated");
    }
    let (n, mut rec) = ctx.t.list_begin(1, 60);
    for _ in 0..n {
        let start = ctx.t.vals.len();
        let ci = ctx.t.below(n_cursors);
        if ctx.t.chance(1, 6) {
            cursors[ci] = open_cursor(id, shared)?;
            fresh[ci] = true;
        }
        // disturb
        if ctx.t.chance(1, 2) {
            let with_fault = faults && ctx.t.chance(1, 2);
            if with_fault {
                let p = fault_plan(&mut ctx.t, &plan);
                world::install(p);
            }
            for _ in 0..ctx.t.range(1, 5) {
                let op = ctx.t.pick(&[CurOp::Next, CurOp::Prev, CurOp::First, CurOp::Last, CurOp::Ge, CurOp::Le]);
                let q = if matches!(op, CurOp::Ge | CurOp::Le) {
                    gen_probe(&mut ctx.t, &entries)
                } else {
                    Vec::new()
                };
                if do_move(&mut cursors[ci], op, &q, &entries, None, with_fault)?.is_none() {
                    ctx.probe("disturbed_by_io_error");
                }
                fresh[ci] = false;
            }
            if with_fault {
                world::install(plan.clone());
            }
        }
        if !std::mem::replace(&mut fresh[ci], false) {
            let c = &mut cursors[ci];
            call("ReaderCursor::reset", || c.reset())?;
        }
        let op = ctx.t.pick(&[CurOp::Ge, CurOp::Le, CurOp::Eq]);
        let q = gen_probe(&mut ctx.t, &entries);
        let want = expect_abs(op, &q, &entries);
        do_move(&mut cursors[ci], op, &q, &entries, Some(want), false)?;
        if want.is_none() {
            ctx.probe("seek_expected_none");
        } else if exact(&entries, &q).is_none() {
            ctx.probe("seek_between_keys");
        }
        rec.items.push((start, ctx.t.vals.len()));
    }
    ctx.t.list_end(rec);
    ctx.nontrivial = world::with(|w| fmt::count_blocks(&w.files[id].data)) >= 3;
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Pos {
    Fresh,
    At(usize),
    Unspecified,
}

pub fn c03(ctx: &mut Ctx) -> R<()> {
    let mut cfg = gen_cfg_levels(&mut ctx.t, false);
    let opts = DataOpts { max_entries: 400, max_bytes: 150_000, big: ctx.t.chance(1, 3) };
    let mut entries = gen_entries(&mut ctx.t, opts);
    if widen(&mut ctx.t, &mut cfg, &mut entries, 300, 70001) {
        ctx.probe("wide_population");
    } else if lengthen(&mut ctx.t, &mut entries, 600) {
        ctx.probe("long_common_prefix");
    }
    let plan = IoPlan::draw_benign(&mut ctx.t);
    ctx.describe(|| format!("{cfg:?}; {}", describe_entries(&entries)));
    world::install(IoPlan::canonical());
    let id = make_far_file(ctx, &cfg, &entries)?;
    let mut plan = plan;
    let faults = ctx.t.chance(1, 4);
    if faults {
        plan.err_read = ctx.t.pick(&[300u32, 1500, 6000]);
        plan.err_seek = ctx.t.pick(&[0u32, 300, 3000]);
        if plan.seed == 0 {
            plan.seed = ctx.t.seed();
        }
    }
    let mut calm = plan.clone();
    calm.err_read = 0;
    calm.err_seek = 0;
    world::install(calm.clone());
    let shared = ctx.t.chance(1, 4);
    let mut pop: Vec<(Cur, Pos)> = vec![(open_cursor(id, shared)?, Pos::Fresh)];
    if ctx.t.chance(1, 3) {
        pop.push((open_cursor(id, shared)?, Pos::Fresh));
    }
    world::install(plan.clone());
    // swarm: which operations this run uses
    let mut weights: [u32; 10] = [3, 3, 10, 10, 5, 5, 4, 1, 2, 3];
    for w in weights.iter_mut() {
        match ctx.t.draw(6) {
            4 => *w = 0,
            5 => *w *= 8,
            _ => {}
        }
    }
    if weights.iter().sum::<u32>() == 0 {
        weights[2] = 1;
    }
    let ops = [
        CurOp::First,
        CurOp::Last,
        CurOp::Next,
        CurOp::Prev,
        CurOp::Ge,
        CurOp::Le,
        CurOp::Eq,
        CurOp::Reset,
        CurOp::Clone,
        CurOp::Current,
    ];
    let burst = ctx.t.pick(&[1usize, 3, 20]);
    let (n, mut rec) = ctx.t.list_begin(1, if ctx.tier == Tier::Thorough { 300 } else { 120 });
    for _ in 0..n {
        let start = ctx.t.vals.len();
        let ci = ctx.t.below(pop.len());
        let op = ops[ctx.t.weighted(&weights)];
        match op {
            CurOp::Reset => {
                let (c, p) = &mut pop[ci];
                call("ReaderCursor::reset", || c.reset())?;
                *p = Pos::Fresh;
            }
            CurOp::Clone => {
                let c2 = {
                    let (c, _) = &pop[ci];
                    call("ReaderCursor::clone", || c.clone())?
                };
                let p = pop[ci].1;
                if pop.len() < 5 {
                    pop.push((c2, p));
                } else {
                    let j = (ci + 1) % pop.len();
                    pop[j] = (c2, p);
                }
                ctx.probe("clones");
            }
            CurOp::Current => {
                let (c, p) = &pop[ci];
                let want = match p {
                    Pos::At(i) => Some(*i),
                    _ => None,
                };
                let got = call("ReaderCursor::current", || same(c.current(), &entries, want))?;
                if let (Err(m), Pos::At(_)) = (got, *p) {
                    return violation("wrong-result:Current", format!("ReaderCursor::current {m}"));
                }
            }
            _ => {
                let q = if matches!(op, CurOp::Ge | CurOp::Le | CurOp::Eq) {
                    gen_probe(&mut ctx.t, &entries)
                } else {
                    Vec::new()
                };
                let times = if matches!(op, CurOp::Next | CurOp::Prev) { ctx.t.range(1, burst) } else { 1 };
                for _ in 0..times {
                    let (c, p) = &mut pop[ci];
                    let want = match (op, *p) {
                        (CurOp::Next, Pos::Fresh) => {
                            Some(if entries.is_empty() { None } else { Some(0) })
                        }
                        (CurOp::Prev, Pos::Fresh) => Some(entries.len().checked_sub(1)),
                        (CurOp::Next, Pos::At(i)) => {
                            Some(if i + 1 < entries.len() { Some(i + 1) } else { None })
                        }
                        (CurOp::Prev, Pos::At(i)) => Some(i.checked_sub(1)),
                        (CurOp::Next | CurOp::Prev, Pos::Unspecified) => None,
                        _ => Some(expect_abs(op, &q, &entries)),
                    };
                    let got = do_move(c, op, &q, &entries, want, faults)?;
                    *p = match (got, want) {
                        (Some(Some(_)), Some(Some(i))) => Pos::At(i),
                        (None, _) => {
                            *ctx.probes.entry("op_failed_by_io_error").or_insert(0) += 1;
                            Pos::Unspecified
                        }
                        // after an unspecified relative move that returned something we know where it is
                        (Some(Some(k)), None) => match exact(&entries, &k) {
                            Some(_) => Pos::Unspecified,
                            None => Pos::Unspecified,
                        },
                        _ => Pos::Unspecified,
                    };
                    if *p == Pos::Unspecified {
                        break;
                    }
                    // current agrees right away
                    if let Pos::At(i) = *p {
                        if let Err(m) =
                            call("ReaderCursor::current", || same(c.current(), &entries, Some(i)))?
                        {
                            return violation("wrong-result:Current", format!("ReaderCursor::current {m}"));
                        }
                    }
                }
            }
        }
        rec.items.push((start, ctx.t.vals.len()));
    }
    ctx.t.list_end(rec);
    let blocks = world::with(|w| fmt::count_blocks(&w.files[id].data));
    ctx.nontrivial = blocks >= 3 && n >= 3;
    if cfg.levels >= 2 && blocks as usize > cfg.levels as usize + 12 {
        ctx.probe("multi_block_index_levels");
    }
    Ok(())
}

enum AnyIter {
    R(RangeIter<SimFile>),
    RR(RevRangeIter<SimFile>),
    P(PrefixIter<SimFile>),
    RP(RevPrefixIter<SimFile>),
}

impl AnyIter {
    fn label(&self) -> &'static str {
        match self {
            AnyIter::R(_) => "RangeIter::next",
            AnyIter::RR(_) => "RevRangeIter::next",
            AnyIter::P(_) => "PrefixIter::next",
            AnyIter::RP(_) => "RevPrefixIter::next",
        }
    }
    fn step(&mut self, entries: &[Kv], want: Option<usize>) -> Result<Result<(), String>, grenad::Error> {
        match self {
            AnyIter::R(i) => i.next(),
            AnyIter::RR(i) => i.next(),
            AnyIter::P(i) => i.next(),
            AnyIter::RP(i) => i.next(),
        }
        .map(|g| same(g, entries, want))
    }
    fn clone_iter(&self) -> AnyIter {
        match self {
            AnyIter::R(i) => AnyIter::R(i.clone()),
            AnyIter::RR(i) => AnyIter::RR(i.clone()),
            AnyIter::P(i) => AnyIter::P(i.clone()),
            AnyIter::RP(i) => AnyIter::RP(i.clone()),
        }
    }
}

struct Actor {
    it: AnyIter,
    /// entry indices still to be yielded, the next one last
    todo: Vec<usize>,
    what: String,
}

pub fn gen_bound(t: &mut Tape, entries: &[Kv]) -> Bound<Vec<u8>> {
    match t.weighted(&[1, 2, 2]) {
        0 => Bound::Unbounded,
        1 => Bound::Included(gen_probe(t, entries)),
        _ => Bound::Excluded(gen_probe(t, entries)),
    }
}

pub fn in_range(k: &[u8], r: &(Bound<Vec<u8>>, Bound<Vec<u8>>)) -> bool {
    (match &r.0 {
        Bound::Unbounded => true,
        Bound::Included(a) => k >= a.as_slice(),
        Bound::Excluded(a) => k > a.as_slice(),
    }) && (match &r.1 {
        Bound::Unbounded => true,
        Bound::Included(b) => k <= b.as_slice(),
        Bound::Excluded(b) => k < b.as_slice(),
    })
}

pub fn show_bound(b: &Bound<Vec<u8>>) -> String {
    match b {
        Bound::Unbounded => "..".into(),
        Bound::Included(a) => format!("[{}]", show(a)),
        Bound::Excluded(a) => format!("({})", show(a)),
    }
}

fn gen_range(t: &mut Tape, entries: &[Kv]) -> (Bound<Vec<u8>>, Bound<Vec<u8>>) {
    let a = gen_bound(t, entries);
    let b = match t.weighted(&[6, 2]) {
        0 => gen_bound(t, entries),
        _ => {
            // related to a: equal bounds of every kind
            let k = match &a {
                Bound::Included(x) | Bound::Excluded(x) => x.clone(),
                Bound::Unbounded => Vec::new(),
            };
            if t.chance(1, 2) {
                Bound::Excluded(k)
            } else {
                Bound::Included(k)
            }
        }
    };
    // mostly ordered, sometimes inverted as drawn
    let inverted = match (&a, &b) {
        (Bound::Included(x) | Bound::Excluded(x), Bound::Included(y) | Bound::Excluded(y)) => x > y,
        _ => false,
    };
    if inverted && t.chance(3, 4) {
        (b, a)
    } else {
        (a, b)
    }
}

fn gen_prefix(t: &mut Tape, entries: &[Kv]) -> Vec<u8> {
    if entries.is_empty() || t.chance(1, 10) {
        return match t.draw(3) {
            0 => Vec::new(),
            1 => vec![0xff; t.range(1, 3)],
            _ => tiny_key(t),
        };
    }
    let k = &entries[t.below(entries.len())].0;
    match t.weighted(&[6, 3, 1, 1]) {
        0 => {
            let n = t.range(0, k.len());
            k[..n].to_vec()
        }
        1 => {
            // mostly everything but the last bytes: selective
            let cut = t.range(0, k.len().min(2));
            k[..k.len() - cut].to_vec()
        }
        2 => {
            let mut p = k.clone();
            p.push(t.pick(&[0xffu8, 0]));
            p
        }
        _ => gen_probe(t, entries),
    }
}

/// A key population rich in 0xFF carries and successor keys.
fn ff_entries(t: &mut Tape) -> Vec<Kv> {
    let mut keys = t.list(0, 40, |t, _| {
        let n = t.range(0, 4);
        let mut k: Vec<u8> = (0..n).map(|_| t.pick(&[0xffu8, 0xfe, 0, b'a'])).collect();
        if t.chance(1, 6) {
            k.extend(std::iter::repeat(0xffu8).take(t.pick(&[1, 30, 200, 400])));
        }
        if t.chance(1, 6) {
            k.extend(std::iter::repeat(b'z').take(t.pick(&[100, 400])));
        }
        k
    });
    keys.sort_unstable();
    keys.dedup();
    let vlen = t.pick(&[1usize, 0, 50, 400]);
    keys.into_iter().enumerate().map(|(i, k)| (k, vec![i as u8; vlen])).collect()
}

fn iterators(ctx: &mut Ctx, ranges: bool) -> R<()> {
    let mut cfg = gen_cfg_levels(&mut ctx.t, false);
    let mut entries = if ctx.t.chance(1, if ranges { 6 } else { 2 }) {
        ff_entries(&mut ctx.t)
    } else {
        gen_entries(&mut ctx.t, DataOpts { max_entries: 250, max_bytes: 100_000, big: true })
    };
    if widen(&mut ctx.t, &mut cfg, &mut entries, 800, 9_001) {
        ctx.probe("wide_population");
    } else if lengthen(&mut ctx.t, &mut entries, 300) {
        ctx.probe("long_common_prefix");
    }
    let plan = IoPlan::draw_benign(&mut ctx.t);
    ctx.describe(|| format!("{cfg:?}; {}", describe_entries(&entries)));
    world::install(IoPlan::canonical());
    let id = make_far_file(ctx, &cfg, &entries)?;
    let mut plan = plan;
    let faults = ctx.t.chance(1, 8);
    world::install(plan.clone());
    let shared = ctx.t.chance(1, 4);
    let base = open(id, shared)?;
    if faults {
        plan.err_read = 800;
        plan.err_seek = 300;
        if plan.seed == 0 {
            plan.seed = ctx.t.seed();
        }
        world::install(plan.clone());
    }
    let mut actors: Vec<Actor> = Vec::new();
    let rounds = ctx.t.range(1, 8);
    for _ in 0..rounds {
        // a pair (or one) of iterators joins
        let (fwd, rev, what, sel): (_, _, String, Vec<usize>) = if ranges {
            let r = gen_range(&mut ctx.t, &entries);
            let sel = (0..entries.len()).filter(|i| in_range(&entries[*i].0, &r)).collect();
            let (r1, r2) = (base.clone(), base.clone());
            let (ra, rb) = (r.clone(), r.clone());
            let f = call_ok("Reader::into_range_iter", || r1.into_range_iter::<_, Vec<u8>>(ra))?;
            let b = call_ok("Reader::into_rev_range_iter", || r2.into_rev_range_iter::<_, Vec<u8>>(rb))?;
            (
                AnyIter::R(f),
                AnyIter::RR(b),
                format!("range {} to {}", show_bound(&r.0), show_bound(&r.1)),
                sel,
            )
        } else {
            let p = gen_prefix(&mut ctx.t, &entries);
            let sel: Vec<usize> =
                (0..entries.len()).filter(|i| entries[*i].0.starts_with(&p)).collect();
            let (r1, r2) = (base.clone(), base.clone());
            let (pa, pb) = (p.clone(), p.clone());
            let f = call_ok("Reader::into_prefix_iter", || r1.into_prefix_iter(pa))?;
            let b = call_ok("Reader::into_rev_prefix_iter", || r2.into_rev_prefix_iter(pb))?;
            (AnyIter::P(f), AnyIter::RP(b), format!("prefix {}", show(&p)), sel)
        };
        ctx.describe(|| format!("{what}: {} entries", sel.len()));
        if sel.is_empty() {
            ctx.probe("empty_selection");
        } else if sel.len() < entries.len() {
            ctx.probe("proper_selection");
        }
        let mut back = sel.clone();
        back.reverse();
        actors.push(Actor { it: fwd, todo: back, what: what.clone() });
        actors.push(Actor { it: rev, todo: sel, what });
        let keep = ctx.t.below(3);
        // step them until few are left; the scheduler decides who moves
        let sched = ctx.t.seed();
        let mut k = 0u64;
        let mut cloned = 0;
        while actors.len() > if rounds > 1 { keep } else { 0 } {
            k += 1;
            let h = crate::tape::mix2(sched, k);
            let ai = (h % actors.len() as u64) as usize;
            if sched != 0 && (h >> 32) % 40 == 0 && actors.len() < 6 && cloned < 4 {
                let a = &actors[ai];
                let it = call("clone of an iterator", || a.it.clone_iter())?;
                let (todo, what) = (a.todo.clone(), a.what.clone());
                actors.push(Actor { it, todo, what });
                ctx.probe("clones");
                cloned += 1;
                continue;
            }
            let a = &mut actors[ai];
            let want = a.todo.last().copied();
            let label = a.it.label();
            let got = call(label, || a.it.step(&entries, want))?;
            match got {
                Ok(Ok(())) => {
                    if a.todo.pop().is_none() {
                        actors.swap_remove(ai);
                    }
                }
                Ok(Err(m)) => {
                    return violation(format!("wrong-result:{label}"), format!("{}: {label} {m}", a.what))
                }
                Err(e) => {
                    if faults && world::with(|w| w.fired.iter().any(|f| f.api_no == w.api_no)) {
                        ctx.probe("iterator_lost_to_io_error");
                        actors.swap_remove(ai);
                    } else {
                        return violation(
                            "spurious-error",
                            format!("{}: {label} failed without any failure: {e:?}", actors[ai].what),
                        );
                    }
                }
            }
        }
    }
    // the rest finishes in order
    for mut a in actors {
        loop {
            let want = a.todo.last().copied();
            let label = a.it.label();
            match call(label, || a.it.step(&entries, want))? {
                Ok(Ok(())) => {
                    if a.todo.pop().is_none() {
                        break;
                    }
                }
                Ok(Err(m)) => {
                    return violation(format!("wrong-result:{label}"), format!("{}: {label} {m}", a.what))
                }
                Err(e) => {
                    if faults && world::with(|w| w.fired.iter().any(|f| f.api_no == w.api_no)) {
                        break;
                    }
                    return violation(
                        "spurious-error",
                        format!("{}: {label} failed without any failure: {e:?}", a.what),
                    );
                }
            }
        }
    }
    ctx.nontrivial = entries.len() >= 2 && world::with(|w| fmt::count_blocks(&w.files[id].data)) >= 2;
    Ok(())
}

pub fn c04(ctx: &mut Ctx) -> R<()> {
    iterators(ctx, true)
}

pub fn c05(ctx: &mut Ctx) -> R<()> {
    iterators(ctx, false)
}
