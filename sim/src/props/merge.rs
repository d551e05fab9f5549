//! C06-C08: mergers and sorters.

use std::collections::{BTreeMap, BTreeSet};

use grenad::{ChunkCreator, CursorVec, Merger, Sorter, TempFileChunk};

use super::read::{open, open_cursor};
use crate::ctx::*;
use crate::fmt;
use crate::gen::*;
use crate::scen::*;
use crate::tape::mix2;
use crate::world::{self, IoPlan, SimChunks, SimFile};

/// The entries of a finished file: by the independent decoder, by the current reader if the file is
/// not what that decoder expects.
fn content_of(id: usize) -> R<Vec<Kv>> {
    let img = world::file_bytes(id);
    if let Ok(d) = fmt::decode(&img, None) {
        return Ok(d.entries());
    }
    let plan = world::with(|w| std::mem::take(&mut w.plan));
    let r = open(id, false)?;
    let mut c = call_ok("Reader::into_cursor", || r.into_cursor())?;
    let mut out = Vec::new();
    while let Some(e) = call_ok("ReaderCursor::move_on_next", || c.move_on_next().map(own))? {
        out.push(e);
    }
    world::with(|w| w.plan = plan);
    Ok(out)
}

fn compare_all(what: &str, got: &[Kv], want: &[Kv]) -> R<()> {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return violation(
                "wrong-content",
                format!(
                    "{what}: entry {i} is {}, expected {} ({} entries, expected {})",
                    show_kv(&got.get(i).cloned()),
                    show_kv(&want.get(i).cloned()),
                    got.len(),
                    want.len()
                ),
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn gen_sources(ctx: &mut Ctx) -> Vec<Vec<Kv>> {
    let many = ctx.t.chance(1, 250);
    let k = match ctx.t.weighted(&[8, 1, 1]) {
        _ if many => ctx.t.pick(&[257usize, 65, 129, 256, 300, 513, 600, 128, 1025]),
        0 => ctx.t.range(0, 6),
        1 => ctx.t.range(2, 12),
        _ => {
            if ctx.t.chance(1, 4) {
                ctx.t.range(20, 40)
            } else {
                2
            }
        }
    };
    let big = ctx.tier == Tier::Thorough && ctx.t.chance(1, 20);
    let budget = if big { 600_000 } else { 60_000 };
    let master = gen_entries(
        &mut ctx.t,
        DataOpts {
            max_entries: if many { 12 } else if big { 4000 } else { 160 },
            max_bytes: if many { 800 } else { budget / (1 + k / 4) },
            big: k < 8,
        },
    );
    let pattern = ctx.t.weighted(&[6, 3, 2, 2, 2, 1]);
    let seed = ctx.t.seed();
    let dens: Vec<u64> = (0..k).map(|_| ctx.t.pick(&[50u64, 100, 20, 5, 0, 90])).collect();
    let taglen = ctx.t.pick(&[4u64, 0, 40, 300, 1500]);
    let taglen = if many { taglen.min(4) } else { taglen };
    (0..k)
        .map(|s| {
            let mut out = Vec::new();
            for (i, (key, v)) in master.iter().enumerate() {
                let h = mix2(seed ^ (s as u64) << 40, i as u64);
                let take = match pattern {
                    0 => h % 100 < dens[s],
                    1 => true,
                    2 => i % k.max(1) == s,
                    3 => i * k / master.len().max(1) == s,
                    4 => i % (s + 1) == 0,
                    // runs shared by neighbouring sources
                    _ => (i / 5) % k.max(1) == s || (i / 5 + 1) % k.max(1) == s,
                };
                if take {
                    let val = match taglen {
                        0 => {
                            if h & 3 == 0 {
                                Vec::new()
                            } else {
                                vec![s as u8]
                            }
                        }
                        n => {
                            let mut x = format!("s{s}i{i}.").into_bytes();
                            x.extend(bytes_from(h, (h >> 9) as usize % (n as usize + 1), h));
                            if h % 11 == 0 {
                                x = v.clone();
                            }
                            x
                        }
                    };
                    out.push((key.clone(), val));
                }
            }
            out
        })
        .collect()
}

pub fn c06(ctx: &mut Ctx) -> R<()> {
    let mut sources = gen_sources(ctx);
    let k = sources.len();
    if k > 0 && k <= 20 && ctx.t.chance(1, 150) {
        let p = long_prefix(&mut ctx.t);
        for s in &mut sources {
            s.truncate((300_000 / p.len()).clamp(2, 30));
            for (key, _) in s {
                key.splice(..0, p.iter().copied());
            }
        }
        ctx.probe("long_common_prefix");
    }
    let mf = ctx.t.pick(&[MfKind::Bracket, MfKind::Bracket, MfKind::Concat, MfKind::First, MfKind::Last, MfKind::Empty, MfKind::Keyed]);
    let shared = ctx.t.chance(1, 4);
    world::install(IoPlan::canonical());
    let mut ids: Vec<usize> = Vec::new();
    let mut content: Vec<usize> = Vec::new();
    let few: Vec<WCfg> = if k > 60 { (0..3).map(|_| gen_cfg_levels(&mut ctx.t, false)).collect() } else { Vec::new() };
    if k > 256 {
        ctx.probe("over_256_sources");
    }
    for (s, e) in sources.iter().enumerate() {
        // the same file may be added several times
        if s > 0 && ctx.t.chance(1, 10) {
            let j = ctx.t.below(s);
            ids.push(ids[j]);
            content.push(content[j]);
        } else {
            let mut cfg = if k > 60 { few[s % 3] } else { gen_cfg_levels(&mut ctx.t, false) };
            if k > 10 {
                cfg.levels = cfg.levels.min(2);
            }
            let id = make_file(ctx, &cfg, e)?;
            ids.push(id);
            content.push(s);
        }
    }
    let mut model: BTreeMap<Vec<u8>, Vec<Vec<u8>>> = BTreeMap::new();
    for s in 0..k {
        for (key, v) in &sources[content[s]] {
            model.entry(key.clone()).or_default().push(v.clone());
        }
    }
    let want: Vec<Kv> = model.iter().map(|(k, v)| (k.clone(), reference_merge(mf.at(k), v))).collect();
    let overlaps = model.values().filter(|v| v.len() > 1).count();
    ctx.describe(|| {
        format!(
            "{k} sources of {:?} entries, {} keys, {overlaps} in several sources, {mf:?}",
            sources.iter().map(|s| s.len()).collect::<Vec<_>>(),
            model.len()
        )
    });

    let plan = IoPlan::draw_benign(&mut ctx.t);
    world::install(plan.clone());
    let mut cursors = Vec::new();
    for id in &ids {
        let mut c = open_cursor(*id, shared)?;
        if ctx.t.chance(1, 12) {
            call_ok("ReaderCursor::move_on_last", || c.move_on_last().map(|_| ()))?;
            call("ReaderCursor::reset", || c.reset())?;
        }
        cursors.push(c);
    }
    let build = ctx.t.draw(3);
    let door = ctx.t.draw(4);
    let m = call("MergerBuilder", || {
        let mut b = match build {
            0 => Merger::builder(any_mf(mf, door)),
            _ => grenad::MergerBuilder::new(any_mf(mf, door)),
        };
        match build {
            0 => {
                for c in cursors {
                    b.push(c);
                }
                b.build()
            }
            1 => {
                b.extend(cursors);
                b.build()
            }
            _ => {
                for c in cursors {
                    b = b.add(c);
                }
                b.build()
            }
        }
    })?;

    record_merges(true);
    let got = if ctx.t.chance(1, 2) {
        ctx.probe("streamed");
        let mut it = call_ok("Merger::into_stream_merger_iter", || m.into_stream_merger_iter())?;
        let mut got: Vec<Kv> = Vec::new();
        while let Some(e) = call_ok("MergerIter::next", || it.next().map(own))? {
            if got.len() > want.len() + 4 {
                break;
            }
            if got.last().is_some_and(|(k, _)| *k >= e.0) {
                return violation("order", format!("MergerIter yields {} after {}", show(&e.0), show(&got.last().unwrap().0)));
            }
            got.push(e);
        }
        got
    } else {
        ctx.probe("into_writer");
        let wc = gen_cfg_levels(&mut ctx.t, false);
        let sink = SimFile::create();
        let id = sink.id;
        let mut w = call("WriterBuilder::build", || wc.build(sink))?;
        call_ok("Merger::write_into_stream_writer", || m.write_into_stream_writer(&mut w))?;
        call_ok("Writer::into_inner", || w.into_inner().map(drop))?;
        content_of(id)?
    };
    let calls = take_merges();
    compare_all("merger output", &got, &want)?;

    // what the merge function was given
    let mut seen: BTreeMap<&[u8], u32> = BTreeMap::new();
    for (key, vals) in &calls {
        let Some(want) = model.get(key) else {
            return violation("merge-call", format!("merge function called for {} that no source holds", show(key)));
        };
        if vals != want {
            return violation(
                "merge-call",
                format!(
                    "merge function called for {} with {} values {:?}, the sources hold {} values {:?} in that order",
                    show(key),
                    vals.len(),
                    vals.iter().take(5).map(|v| show(v)).collect::<Vec<_>>(),
                    want.len(),
                    want.iter().take(5).map(|v| show(v)).collect::<Vec<_>>()
                ),
            );
        }
        *seen.entry(key).or_insert(0) += 1;
    }
    for (key, vals) in &model {
        let n = seen.get(key.as_slice()).copied().unwrap_or(0);
        if vals.len() > 1 && n != 1 {
            return violation(
                "merge-call",
                format!("key {} is held by {} sources, merge function called {n} times", show(key), vals.len()),
            );
        }
    }
    ctx.nontrivial = overlaps > 0 && k >= 2;
    if model.values().any(|v| v.len() >= 3) {
        ctx.probe("key_in_three_sources");
    }
    if sources.iter().any(|s| s.is_empty()) && k > 0 {
        ctx.probe("empty_source");
    }
    if k == 0 {
        ctx.probe("no_source");
    }
    let mut distinct = ids.clone();
    distinct.sort_unstable();
    distinct.dedup();
    if distinct.len() < ids.len() {
        ctx.probe("same_file_twice");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn drive_sorter<CC: ChunkCreator>(
    ctx: &mut Ctx,
    cfg: &SCfg,
    mf: MfKind,
    ins: &[Kv],
    out: &SortOut,
    cc: CC,
) -> R<Vec<Kv>> {
    let mut s: Sorter<AnyMf, CC> = call("SorterBuilder::build", || build_sorter(cfg, mf, cc))?;
    for (k, v) in ins {
        call_ok("Sorter::insert", || s.insert(k, v))?;
    }
    let spilled = world::with(|w| w.created_chunks);
    if spilled > 0 {
        ctx.probe("spilled");
    }
    let mut got: Vec<Kv> = Vec::new();
    let limit = ins.len() + 4;
    macro_rules! stream {
        ($it:expr) => {{
            let mut it = $it;
            while let Some(e) = call_ok("MergerIter::next", || it.next().map(own))? {
                if got.len() > limit {
                    break;
                }
                got.push(e);
            }
        }};
    }
    match out {
        SortOut::Stream => {
            ctx.probe("out_stream");
            stream!(call_ok("Sorter::into_stream_merger_iter", || s.into_stream_merger_iter())?);
        }
        SortOut::Writer(wc) => {
            ctx.probe("out_writer");
            let sink = SimFile::create();
            let id = sink.id;
            let mut w = call("WriterBuilder::build", || wc.build(sink))?;
            call_ok("Sorter::write_into_stream_writer", || s.write_into_stream_writer(&mut w))?;
            call_ok("Writer::into_inner", || w.into_inner().map(drop))?;
            got = content_of(id)?;
        }
        SortOut::Cursors => {
            ctx.probe("out_cursors");
            let cs = call_ok("Sorter::into_reader_cursors", || s.into_reader_cursors())?;
            if cs.len() > 1 {
                ctx.probe("several_cursors");
            }
            let mut b = Merger::builder(any_mf(mf, cfg.par_seed >> 6));
            b.extend(cs);
            let m = b.build();
            stream!(call_ok("Merger::into_stream_merger_iter", || m.into_stream_merger_iter())?);
        }
    }
    Ok(got)
}

pub fn check_sorted(got: &[Kv], ins: &[Kv], mf: MfKind, unstable: bool) -> R<()> {
    let mut model: BTreeMap<&[u8], Vec<Vec<u8>>> = BTreeMap::new();
    for (k, v) in ins {
        model.entry(k).or_default().push(v.clone());
    }
    for w in got.windows(2) {
        if w[0].0 >= w[1].0 {
            return violation("order", format!("key {} comes after {}", show(&w[1].0), show(&w[0].0)));
        }
    }
    let mut g = got.iter();
    for (key, vals) in &model {
        let Some((gk, gv)) = g.next() else {
            return violation("lost", format!("key {} is missing, {} of {} keys came out", show(key), got.len(), model.len()));
        };
        if gk.as_slice() != *key {
            return violation("keys", format!("expected key {}, got {}", show(key), show(gk)));
        }
        let ok = if !unstable || vals.len() == 1 {
            *gv == reference_merge(mf.at(key), vals)
        } else {
            match mf.at(key) {
                MfKind::Concat => match split_tagged(gv) {
                    Some(mut parts) => {
                        let mut want: Vec<&[u8]> = vals.iter().map(|v| v.as_slice()).collect();
                        parts.sort_unstable();
                        want.sort_unstable();
                        parts == want
                    }
                    None => false,
                },
                MfKind::First | MfKind::Last => vals.contains(gv),
                _ => *gv == reference_merge(mf.at(key), vals),
            }
        };
        if !ok {
            let ids = |v: &[u8]| match split_tagged(v) {
                Some(p) => format!("inserts {:?}", p.iter().take(20).map(|x| u32::from_be_bytes(x[4..8].try_into().unwrap())).collect::<Vec<_>>()),
                None => show(v),
            };
            return violation(
                "value",
                format!(
                    "key {} has value {}, expected the {:?} of {} values: {}",
                    show(key),
                    ids(gv),
                    mf,
                    vals.len(),
                    ids(&reference_merge(mf.at(key), vals))
                ),
            );
        }
    }
    if let Some((k, _)) = g.next() {
        return violation("keys", format!("key {} was never inserted", show(k)));
    }
    Ok(())
}

pub fn c07(ctx: &mut Ctx) -> R<()> {
    let cfg = gen_scfg(&mut ctx.t);
    let mf = gen_mf(&mut ctx.t);
    let out = match ctx.t.draw(3) {
        0 => SortOut::Stream,
        1 => SortOut::Writer(gen_cfg_levels(&mut ctx.t, false)),
        _ => SortOut::Cursors,
    };
    let many = ctx.t.chance(1, if cfg.par { 6 } else { 60 });
    let mut cfg = cfg;
    if many {
        // thousands of entries in memory at once: the parallel sort really splits
        let b = ctx.t.pick(&[400_000usize, 120_000, 1_000_000]);
        let initial = ctx.t.pick(&[4096usize, 100_000, b]).min(b);
        cfg.limits = Some((b, initial));
        cfg.dump = Some(0);
    }
    let mut budget = cfg.budget();
    let ins = gen_inserts(
        &mut ctx.t,
        mf,
        InsOpts {
            max: if many { 9000 } else { 400 },
            max_bytes: if many { 700_000 } else { 120_000 },
            many,
            budget: budget.min(20_000),
            cap: 60_000,
        },
    );
    // keep the number of spills affordable
    let mut ins = ins;
    if many && ctx.t.chance(1, 40) {
        // more entries in memory than sixteen bits count
        let n = ctx.t.pick(&[140_000usize, 66_000, 270_000]);
        let keys = 1 + ctx.t.draw(60_000);
        let seed = ctx.t.seed();
        cfg.limits = Some((n * 64, 4096));
        cfg.unstable &= ctx.t.chance(1, 4);
        ins = (0..n as u64)
            .map(|i| {
                let v = match mf {
                    MfKind::Sum => (i as u32).to_be_bytes().to_vec(),
                    _ => tagged_value(i as u32, 0),
                };
                ((mix2(seed, i) % keys).to_be_bytes()[5..].to_vec(), v)
            })
            .collect();
        budget = cfg.budget();
        ctx.probe("huge_population");
    }
    if !many && !ins.is_empty() && ctx.t.chance(1, 150) {
        // keys that differ only behind a long common prefix
        let p = long_prefix(&mut ctx.t);
        ins.truncate((1_500_000 / p.len()).min(60));
        for (k, _) in &mut ins {
            k.splice(..0, p.iter().copied());
        }
        let b = p.len() * (1 + ctx.t.below(20)) + 500;
        cfg.limits = Some((b, 1024));
        cfg.dump = Some(0);
        budget = cfg.budget();
        ctx.probe("long_common_prefix");
    }
    let total: usize = ins.iter().map(|(k, v)| k.len() + v.len() + 16).sum();
    let max_spills = if ctx.tier == Tier::Thorough { 600 } else { 250 };
    if budget * max_spills < total {
        let mut acc = 0;
        let keep = ins.iter().take_while(|(k, v)| { acc += k.len() + v.len() + 16; acc < budget * max_spills }).count();
        ins.truncate(keep.max(4));
    }
    let distinct: BTreeSet<&[u8]> = ins.iter().map(|(k, _)| k.as_slice()).collect();
    let ndistinct = distinct.len();
    ctx.describe(|| format!("{cfg:?} {mf:?} {out:?}; {} inserts of {ndistinct} keys, {total} bytes", ins.len()));
    let plan = IoPlan::draw_benign(&mut ctx.t);
    world::install(plan);
    let got = match cfg.storage {
        Storage::CursorVec => drive_sorter(ctx, &cfg, mf, &ins, &out, CursorVec)?,
        Storage::TempFile => drive_sorter(ctx, &cfg, mf, &ins, &out, TempFileChunk)?,
        st => {
            let cc = SimChunks { keep: false, shared: st == Storage::SimShared, err_style: 0 };
            drive_sorter(ctx, &cfg, mf, &ins, &out, cc)?
        }
    };
    for (k, v) in &got {
        world::note(mix2(world::hash_bytes(k), world::hash_bytes(v)));
    }
    check_sorted(&got, &ins, mf, cfg.unstable)?;
    let created = world::with(|w| w.created_chunks);
    let (joins, _, th) = rayon_core::sim::stats();
    world::note(th);
    if joins > 0 {
        ctx.probe_n("rayon_joins", joins);
        ctx.probe("parallel_sort_ran_joins");
    }
    if ins.iter().any(|(k, v)| k.len() + v.len() > 2 * budget) {
        ctx.probe("entry_larger_than_buffer");
    }
    if created > cfg.max_nb_chunks() as u64 + 1 {
        ctx.probe("chunks_merged");
    }
    ctx.nontrivial = ndistinct < ins.len() && (created >= 2 || matches!(cfg.storage, Storage::CursorVec | Storage::TempFile));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// Entries recorded in the trailers of the live chunks.
fn entries_in_chunks() -> Option<u64> {
    world::with(|w| {
        let mut n = 0;
        for f in w.files.iter().filter(|f| f.is_chunk && f.handles > 0) {
            n += fmt::classify(&f.data)?.count;
        }
        Some(n)
    })
}

pub fn c08(ctx: &mut Ctx) -> R<()> {
    let real = ctx.t.chance(1, if ctx.tier == Tier::Thorough { 300 } else { 500 });
    let mut cfg = gen_scfg(&mut ctx.t);
    cfg.storage = if ctx.t.chance(1, 4) { Storage::SimShared } else { Storage::Sim };
    let mf = ctx.t.pick(&[MfKind::Concat, MfKind::First, MfKind::Last, MfKind::Keyed]);
    let (requested, budget);
    if real {
        // the shipped constants: the budget is at least 10 MiB
        cfg.limits = None;
        cfg.dump = Some(ctx.t.pick(&[1024usize, 0, 10_485_760, 12_000_000, 10_485_761]));
        cfg.codec = None;
        budget = cfg.budget();
        requested = cfg.dump.unwrap();
        ctx.probe("real_thresholds");
    } else {
        let l = cfg.limits.as_mut().unwrap();
        l.0 = l.0.max(64).min(20_000);
        l.1 = l.1.min(l.0);
        let min = l.0;
        cfg.dump = Some(match ctx.t.weighted(&[3, 3, 2]) {
            0 => ctx.t.below(min + 1),
            1 => min + ctx.t.below(3 * min),
            _ => min,
        });
        budget = cfg.budget();
        requested = cfg.dump.unwrap();
    }
    let limit = if cfg.realloc { 2 * budget } else { budget };
    // a large maximum that is really reached
    let many_chunks = !real && budget <= 3000 && ctx.t.chance(1, 12);
    if many_chunks {
        cfg.max_chunks = ctx.t.pick(&[Some(32), None, Some(33), Some(64), Some(40), Some(100), Some(16)]);
        if budget <= 400 && ctx.t.chance(1, 8) {
            cfg.max_chunks = Some(ctx.t.pick(&[300usize, 257, 256, 255, 520]));
            ctx.probe("maximum_over_254");
        }
        ctx.probe("large_maximum");
    }
    let max_chunks = cfg.max_nb_chunks() as i64;
    let cap = budget / 4;
    // workload
    let style = ctx.t.weighted(&[3, 3, 2, 2, 1]);
    let fixed = match style {
        1 => cap - ctx.t.below(cap.min(40) + 1),
        2 => ctx.t.below(cap + 1),
        _ => 0,
    };
    let unique = !ctx.t.chance(1, 5);
    // the producer changes its mind: distinct keys, then a few keys again and again (chunks that
    // collapse to almost nothing), tiny entries then entries at the limit, and so on
    let phases = if ctx.t.chance(1, 3) { ctx.t.range(2, 5) as u64 } else { 1 };
    let pseed = ctx.t.seed();
    let long = ctx.tier == Tier::Thorough || ctx.t.chance(1, 10);
    let factor = if real { ctx.t.range(3, 6) } else { ctx.t.range(2, if long { 60 } else { 25 }) };
    let factor = if many_chunks { 2 * (max_chunks as usize + 4) } else { factor };
    let seed = ctx.t.seed();
    let mut plan = IoPlan::draw_benign(&mut ctx.t);
    if real {
        plan = IoPlan::canonical();
    }
    world::install(plan);
    ctx.describe(|| format!("{cfg:?}; budget {budget} (requested {requested}), style {style}/{fixed}, {factor} budgets of data in {phases} phases, unique keys {unique}, {mf:?}"));
    let cc = SimChunks { keep: false, shared: cfg.storage == Storage::SimShared, err_style: 0 };
    // what the sorter keeps in memory between two inserts: buffer, handles and room for scratch
    // space proportional to the buffer, never something that grows with what was inserted
    let metered = cfg.codec.is_none() && !cfg.par;
    let memory_bound =
        (12 * budget.max(cfg.limits.map_or(131_072, |l| l.1)) + 65_536 + (max_chunks as usize).min(100_000) * 512) as isize;
    let mut max_memory = 0;
    if metered {
        crate::alloc::meter_start();
    }
    let mut s = call("SorterBuilder::build", || build_sorter(&cfg, mf, cc))?;
    let mut volume = 0usize;
    let mut unspilled_min = 0usize;
    let mut total = 0usize;
    let mut ok_inserts = 0u64;
    let mut max_volume = 0usize;
    let mut i = 0u64;
    let max_inserts = if real { 60_000 } else { 20_000 };
    let bound_chunks = |what: &str| -> R<()> {
        let live = world::with(|w| w.max_live_chunks);
        if live > max_chunks + 2 {
            return violation(
                "chunks",
                format!("{live} chunks existed at the same time {what}, the configured maximum is {max_chunks}"),
            );
        }
        Ok(())
    };
    while total < factor * budget && i < max_inserts {
        let h = mix2(seed, i);
        let phase = total as u64 * phases / (factor * budget) as u64;
        let ph = mix2(pseed, phase);
        let (style, unique, few) = if phases > 1 {
            ([style, 0, 1, 3, 4][(ph % 5) as usize], ph >> 8 & 1 == 0, [1u16, 2, 8, 50][(ph >> 16 & 3) as usize])
        } else {
            (style, unique, 50)
        };
        let size = match style {
            0 => (h % (cap as u64 / 4 + 1)) as usize,
            1 | 2 => fixed,
            3 => if h % 9 == 0 { cap } else { (h >> 8) as usize % 24 },
            _ => (h % 13) as usize,
        };
        // at real thresholds many tiny entries take too long
        let size = if real { size.max(600).min(cap) } else { size };
        let mut key = if unique {
            let mut k = (i as u32).to_be_bytes().to_vec();
            k.rotate_left((seed % 4) as usize);
            k
        } else {
            ((h >> 16) as u16 % few).to_be_bytes().to_vec()
        };
        if key.len() > size && !unique {
            key.truncate(size);
        }
        let entry = size.max(key.len());
        if entry > cap {
            // cannot be called small
            i += 1;
            if cap < 4 {
                break;
            }
            continue;
        }
        let val = vec![i as u8; entry - key.len()];
        let (c0, in_chunks) = (world::with(|w| w.created_chunks), ok_inserts);
        call_ok("Sorter::insert", || s.insert(&key, &val))?;
        let c1 = world::with(|w| w.created_chunks);
        total += entry + 16;
        ok_inserts += 1;
        if c1 > c0 {
            // was the entry itself spilled?
            let own_spilled = if unique && phases == 1 { entries_in_chunks().map(|n| n > in_chunks) } else { None };
            volume = if own_spilled == Some(false) { entry } else { 0 };
            if let (true, true, Some(n)) = (unique && phases == 1, matches!(style, 1 | 2), entries_in_chunks()) {
                unspilled_min = ok_inserts.saturating_sub(n) as usize * entry;
            }
        } else {
            volume += entry;
            unspilled_min += if unique && phases == 1 && matches!(style, 1 | 2) { entry } else { 0 };
        }
        if metered {
            let m = crate::alloc::metered();
            max_memory = max_memory.max(m);
            if m > memory_bound {
                return violation(
                    "memory",
                    format!(
                        "{m} bytes held between two inserts after {total} bytes were inserted, the budget is {budget} (bound used: {memory_bound})"
                    ),
                );
            }
        }
        max_volume = max_volume.max(volume);
        // entries of one size: what is in no chunk yet can be counted
        if unspilled_min > limit && limit > 0 {
            return violation(
                "volume",
                format!(
                    "{unspilled_min} bytes of the inserted entries are in no chunk, the budget is {budget} and reallocation is {}",
                    if cfg.realloc { "allowed (at most twice the budget)" } else { "not allowed" }
                ),
            );
        }
        if volume > limit {
            return violation(
                "volume",
                format!(
                    "{volume} bytes inserted since the last spill, the budget is {budget} and reallocation is {}",
                    if cfg.realloc { "allowed (at most twice the budget)" } else { "not allowed" }
                ),
            );
        }
        bound_chunks("while inserting")?;
        i += 1;
    }
    crate::alloc::meter_stop();
    if metered && total as isize > memory_bound {
        ctx.probe("more_inserted_than_memory_bound");
    }
    let created = world::with(|w| w.created_chunks);
    // the end of the story: output
    match ctx.t.draw(3) {
        0 => {
            let mut it = call_ok("Sorter::into_stream_merger_iter", || s.into_stream_merger_iter())?;
            for _ in 0..3 {
                call_ok("MergerIter::next", || it.next().map(|x| x.is_some()))?;
            }
        }
        1 => {
            let mut w = call("WriterBuilder::build", || grenad::Writer::memory())?;
            call_ok("Sorter::write_into_stream_writer", || s.write_into_stream_writer(&mut w))?;
        }
        _ => {
            call_ok("Sorter::into_reader_cursors", || s.into_reader_cursors().map(drop))?;
        }
    }
    bound_chunks("until the output was read")?;
    let left = world::with(|w| w.live_chunks);
    if left > 0 {
        ctx.probe("chunks_left_behind");
    }
    if created >= 2 {
        ctx.probe("several_spills");
    }
    if created as i64 > max_chunks + 1 {
        ctx.probe("chunks_merged");
    }
    if max_volume * 10 > limit * 6 {
        ctx.probe("volume_over_60_percent");
    }
    if max_volume * 10 > limit * 9 {
        ctx.probe("volume_over_90_percent");
    }
    ctx.nontrivial = created >= 2;
    Ok(())
}
