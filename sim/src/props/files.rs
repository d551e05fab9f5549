//! C09, C10, C13, C15, C16, C18: the files themselves.

use std::io::Cursor;
use std::num::NonZeroUsize;

use grenad::{FileVersion, Reader};

use crate::ctx::*;
use crate::fmt::{self, Pending};
use crate::gen::*;
use crate::props::read::{open, scan_backward, scan_forward, CurOp};
use crate::scen::*;
use crate::tape::Tape;
use crate::world::{self, Effect, FaultSpec, IoPlan, Op, SimFile};

// ---------------------------------------------------------------------------------------------
// C09

fn compare_entries(what: &str, got: &fmt::Decoded, entries: &[Kv]) -> R<()> {
    let mut n = 0;
    for (i, (_, k, v)) in got.data.iter().flat_map(|b| got.blocks[*b].entries.iter()).enumerate() {
        n += 1;
        match entries.get(i) {
            Some((wk, wv)) if wk == k && wv == v => {}
            w => {
                return violation(
                    "decoded-entries",
                    format!(
                        "{what}: entry {i} decodes to {}, inserted {}",
                        show_kv(&Some((k.clone(), v.clone()))),
                        show_kv(&w.cloned())
                    ),
                )
            }
        }
    }
    if n != entries.len() {
        return violation("decoded-entries", format!("{what}: {n} entries decoded, {} inserted", entries.len()));
    }
    Ok(())
}

/// The frozen reader must find exactly the entries.
fn old_reader_scans(what: &str, img: &[u8], entries: &[Kv], probes: &[Vec<u8>]) -> R<()> {
    fn v<T>(what: &str, m: String) -> R<T> {
        violation("reader-0.4.7", format!("{what}: grenad 0.4.7 reader: {m}"))
    }
    let r = match guard("0.4.7 Reader::new", || grenad_0_4::Reader::new(Cursor::new(img))) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return v(what, format!("does not open: {e:?}")),
        Err(p) => return v(what, format!("panicked: {}", p.msg)),
    };
    if r.len() != entries.len() as u64 {
        return v(what, format!("len {} of {}", r.len(), entries.len()));
    }
    let mut c = match guard("0.4.7 into_cursor", || r.into_cursor()) {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return v(what, format!("no cursor: {e:?}")),
        Err(p) => return v(what, format!("panicked: {}", p.msg)),
    };
    for pass in 0..2 {
        for i in 0..=entries.len() {
            let want = if i < entries.len() {
                Some(if pass == 0 { i } else { entries.len() - 1 - i })
            } else {
                None
            };
            let got = guard("0.4.7 scan", || {
                if pass == 0 {
                    c.move_on_next().map(|g| same(g, entries, want))
                } else {
                    c.move_on_prev().map(|g| same(g, entries, want))
                }
            });
            match got {
                Ok(Ok(Ok(()))) => {}
                Ok(Ok(Err(m))) => {
                    return v(what, format!("{} scan {m}", if pass == 0 { "forward" } else { "backward" }))
                }
                Ok(Err(e)) => return v(what, format!("scan failed: {e:?}")),
                Err(p) => return v(what, format!("scan panicked: {}", p.msg)),
            }
        }
        c.reset();
    }
    for q in probes {
        let want = exact(entries, q);
        let got = guard("0.4.7 seek", || {
            c.reset();
            c.move_on_key_equal_to(q).map(|g| same(g, entries, want))
        });
        match got {
            Ok(Ok(Ok(()))) => {}
            Ok(Ok(Err(m))) => return v(what, format!("exact seek of {} {m}", show(q))),
            Ok(Err(e)) => return v(what, format!("seek failed: {e:?}")),
            Err(p) => return v(what, format!("seek panicked: {}", p.msg)),
        }
    }
    Ok(())
}

pub fn old_codec(c: grenad::CompressionType) -> grenad_0_4::CompressionType {
    match c as u8 {
        0 => grenad_0_4::CompressionType::None,
        1 => grenad_0_4::CompressionType::SnappyPre05,
        2 => grenad_0_4::CompressionType::Zlib,
        3 => grenad_0_4::CompressionType::Lz4,
        4 => grenad_0_4::CompressionType::Zstd,
        _ => grenad_0_4::CompressionType::Snappy,
    }
}

fn benign_or<T>(r: R<T>) -> R<T> {
    match r {
        Err(Stop::Violation(_, m)) => Err(Stop::Inconclusive(m)),
        x => x,
    }
}

pub fn c09(ctx: &mut Ctx) -> R<()> {
    match ctx.t.weighted(&[6, 4, 1]) {
        0 => {
            let mut cfg = gen_cfg(&mut ctx.t);
            let opts = if ctx.tier == Tier::Thorough && ctx.t.chance(1, 20) {
                DataOpts { max_entries: 20_000, max_bytes: 3_000_000, big: true }
            } else {
                DataOpts::default()
            };
            let mut entries = gen_entries(&mut ctx.t, opts);
            if widen(&mut ctx.t, &mut cfg, &mut entries, 200, usize::MAX) {
                ctx.probe("wide_population");
            }
            let probes = ctx.t.list(0, 8, |t, _| gen_probe(t, &entries));
            ctx.describe(|| format!("current writer {cfg:?}; {}", describe_entries(&entries)));
            world::install(IoPlan::draw_benign(&mut ctx.t));
            let id = benign_or(write_file(&cfg, &entries))?;
            let img = world::file_bytes(id);
            let d = match fmt::decode(&img, Some(cfg.interval)) {
                Ok(d) => d,
                Err(m) => return violation("malformed", format!("the written file is not well formed: {m}")),
            };
            if d.trailer.version != 2 || d.trailer.codec != cfg.codec as u8 || d.trailer.levels != cfg.levels {
                return violation("trailer", format!("trailer {:?} for {cfg:?}", d.trailer));
            }
            compare_entries("independent decoder", &d, &entries)?;
            // one level wraps around in the frozen reader
            if cfg.levels < 255 {
                old_reader_scans("file of the current writer", &img, &entries, &probes)?;
                ctx.probe("read_by_0.4.7");
            }
            if d.index.iter().skip(2).any(|l| l.len() > 1) {
                ctx.probe("multi_block_index_level");
            }
            ctx.nontrivial = d.data.len() >= 2;
            world::note(world::hash_bytes(&img));
            Ok(())
        }
        1 => {
            let mut cfg = gen_cfg_levels(&mut ctx.t, true);
            cfg.levels = cfg.levels.min(254);
            let mut entries = gen_entries(&mut ctx.t, DataOpts::default());
            if widen(&mut ctx.t, &mut cfg, &mut entries, 200, usize::MAX) {
                ctx.probe("wide_population_0.4.7");
            }
            let probes = ctx.t.list(0, 12, |t, _| gen_probe(t, &entries));
            let shared = ctx.t.chance(1, 4);
            ctx.describe(|| format!("0.4.7 writer {cfg:?}; {}", describe_entries(&entries)));
            let img = setup("0.4.7 writer", || -> std::io::Result<Vec<u8>> {
                let mut b = grenad_0_4::WriterBuilder::new();
                b.compression_type(old_codec(cfg.codec));
                b.compression_level(cfg.level);
                b.block_size(cfg.block_size);
                b.index_key_interval(NonZeroUsize::new(cfg.interval).unwrap());
                b.index_levels(cfg.levels);
                let mut w = b.memory();
                for (k, v) in &entries {
                    w.insert(k, v)?;
                }
                w.into_inner()
            })?;
            // the frozen writer is not the subject
            match fmt::decode(&img, None) {
                Ok(d) if d.entries() == entries => ctx.nontrivial = d.data.len() >= 2,
                Ok(_) => return inconclusive("0.4.7 wrote other entries"),
                Err(m) => return inconclusive(format!("0.4.7 wrote: {m}")),
            }
            world::note(world::hash_bytes(&img));
            let id = world::new_file(img);
            world::install(IoPlan::draw_benign(&mut ctx.t));
            let r = open(id, shared)?;
            if r.len() != entries.len() as u64
                || r.compression_type() != cfg.codec
                || r.file_version() != FileVersion::FormatV2
            {
                return violation(
                    "metadata-0.4.7",
                    format!(
                        "file of grenad 0.4.7 with {} entries {:?}: len {} codec {:?} version {:?}",
                        entries.len(),
                        cfg.codec,
                        r.len(),
                        r.compression_type(),
                        r.file_version()
                    ),
                );
            }
            let mut c = call_ok("Reader::into_cursor", || r.into_cursor())?;
            scan_forward(&mut c, &entries)?;
            call("ReaderCursor::reset", || c.reset())?;
            scan_backward(&mut c, &entries)?;
            for q in &probes {
                let want = exact(&entries, q);
                call("ReaderCursor::reset", || c.reset())?;
                let got = call("move_on_key_equal_to", || {
                    c.move_on_key_equal_to(q).map(|g| same(g, &entries, want))
                })?;
                match got {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => return violation("wrong-result", format!("exact seek of {} {m}", show(q))),
                    Err(e) => return violation("spurious-error", format!("exact seek failed: {e:?}")),
                }
            }
            ctx.probe("written_by_0.4.7");
            Ok(())
        }
        _ => {
            // the chunks and the output of a sorter are files as well
            let (scen, cfg) = gen_kept_sort(ctx, 60_000, 400);
            world::install(IoPlan::draw_benign(&mut ctx.t));
            let p = play(&scen);
            let ok = p.log.iter().all(|s| matches!(s.out, StepOut::Ok));
            if !ok {
                return inconclusive("the sorter failed");
            }
            let mut chunks = 0;
            for (name, img) in &p.outputs {
                let interval = match (&scen, name.as_str()) {
                    (Scen::Sort { out: SortOut::Writer(w), .. }, "sink") => w.interval,
                    _ => {
                        chunks += 1;
                        cfg.interval.unwrap_or(8)
                    }
                };
                let d = match fmt::decode(img, Some(interval)) {
                    Ok(d) => d,
                    Err(m) => return violation("malformed", format!("sorter {name} is not well formed: {m}")),
                };
                if d.trailer.version != 2 {
                    return violation("trailer", format!("sorter {name}: trailer {:?}", d.trailer));
                }
                if d.trailer.levels < 255 {
                    old_reader_scans(&format!("sorter {name}"), img, &d.entries(), &[])?;
                }
            }
            ctx.probe_n("chunk_files_decoded", chunks);
            ctx.nontrivial = chunks >= 2;
            Ok(())
        }
    }
}

fn gen_kept_sort(ctx: &mut Ctx, max_bytes: usize, max: usize) -> (Scen, SCfg) {
    let mut cfg = gen_scfg(&mut ctx.t);
    cfg.storage = if ctx.t.chance(1, 3) { Storage::SimShared } else { Storage::Sim };
    cfg.keep = true;
    // keep the number of chunk files affordable
    if let Some((b, i)) = cfg.limits {
        cfg.limits = Some((b.max(512), i));
        cfg.dump = cfg.dump.map(|d| d.max(512));
    }
    let mf = gen_mf(&mut ctx.t);
    let budget = cfg.budget();
    let ins = gen_inserts(
        &mut ctx.t,
        mf,
        InsOpts { max, max_bytes, budget: budget.min(20_000), cap: max_bytes, many: false },
    );
    let out = match ctx.t.draw(3) {
        0 => SortOut::Stream,
        1 => SortOut::Writer(gen_cfg_levels(&mut ctx.t, false)),
        _ => SortOut::Cursors,
    };
    ctx.describe(|| format!("sorter {cfg:?} {mf:?}, {} inserts, out {out:?}", ins.len()));
    (Scen::Sort { cfg: cfg.clone(), mf, ins, out }, cfg)
}

// ---------------------------------------------------------------------------------------------
// C10

pub fn c10(ctx: &mut Ctx) -> R<()> {
    let mut cfg = gen_cfg_levels(&mut ctx.t, false);
    cfg.levels = 0;
    let big = ctx.t.chance(1, 4);
    let mut entries = gen_entries(&mut ctx.t, DataOpts { max_entries: 400, max_bytes: 120_000, big });
    if widen(&mut ctx.t, &mut cfg, &mut entries, 400, 70_001) {
        cfg.levels = 0;
        ctx.probe("wide_population");
    }
    ctx.describe(|| format!("{cfg:?}; {}", describe_entries(&entries)));
    // the version 1 blocks may lie far behind the start of the file
    let base = gen_base(&mut ctx.t, total_bytes(&entries));
    if base > 0 {
        ctx.probe("far_blocks");
    }
    let v1 = fmt::encode_at(base, 1, &entries, cfg.codec as u8, cfg.level, cfg.block_size, cfg.interval, 0);
    let v2 = fmt::encode(2, &entries, cfg.codec as u8, cfg.level, cfg.block_size, cfg.interval, 0);
    let shared = ctx.t.chance(1, 4);
    let plan = if ctx.t.chance(1, 3) { IoPlan::draw_benign(&mut ctx.t) } else { IoPlan::canonical() };
    world::install(plan.clone());
    {
        // absolute part
        let id = world::new_file_at(base, v1.clone());
        let h = reader_handle(id, shared);
        let r = match call("Reader::new", || Reader::new(h))? {
            Ok(r) => r,
            Err(e) => return violation("v1-rejected", format!("a version 1 file does not open: {e:?}")),
        };
        if r.file_version() != FileVersion::FormatV1 {
            return violation("v1-version", format!("opens as {:?}", r.file_version()));
        }
        if r.len() != entries.len() as u64 || r.is_empty() != entries.is_empty() {
            return violation("v1-count", format!("len {} for {} entries", r.len(), entries.len()));
        }
        if r.compression_type() != cfg.codec {
            return violation("v1-codec", format!("codec {:?} for {:?}", r.compression_type(), cfg.codec));
        }
    }
    // the stored count and codec are reported as they are, whatever they are
    for _ in 0..ctx.t.range(1, 4) {
        let count = match ctx.t.draw(4) {
            0 => ctx.t.pick(&[1u64 << 32, u64::MAX, (1 << 32) - 1, (1 << 32) + 5, 1 << 63, i64::MAX as u64, 0, 1, 1 << 16, 1 << 8]),
            1 => 1u64 << ctx.t.draw(64),
            2 => ctx.t.seed(),
            _ => ctx.t.draw(1 << 20),
        };
        let codec = CODECS[ctx.t.below(6)];
        let mut img = v1.clone();
        let n = img.len();
        img[n - 12..n - 4].copy_from_slice(&count.to_le_bytes());
        img[n - 13] = codec as u8;
        let id = world::new_file(img);
        let h = reader_handle(id, shared);
        let r = match call("Reader::new", || Reader::new(h))? {
            Ok(r) => r,
            Err(e) => return violation("v1-rejected", format!("a version 1 trailer with {count} entries does not open: {e:?}")),
        };
        if r.len() != count || r.is_empty() != (count == 0) {
            return violation("v1-count", format!("len {} for a stored count of {count}, is_empty {}", r.len(), r.is_empty()));
        }
        if r.compression_type() != codec || r.file_version() != FileVersion::FormatV1 {
            return violation("v1-codec", format!("{:?} {:?} for {codec:?}", r.file_version(), r.compression_type()));
        }
        ctx.probe("foreign_counts");
    }
    let mode = ctx.t.draw(3);
    let mut scens: Vec<Box<dyn Fn(Vec<u8>, u64) -> Scen>> = Vec::new();
    if mode != 1 {
        // full scans in both directions, then a history
        let mut ops: Vec<(CurOp, Vec<u8>)> = Vec::new();
        if entries.len() <= 150 || ctx.t.chance(1, 4) {
            ops.extend((0..=entries.len()).map(|_| (CurOp::Next, vec![])));
            ops.push((CurOp::Reset, vec![]));
            ops.extend((0..=entries.len()).map(|_| (CurOp::Prev, vec![])));
            ops.push((CurOp::Reset, vec![]));
        }
        ops.extend(gen_read_ops(&mut ctx.t, &entries, 80));
        scens.push(Box::new(move |image, base| Scen::Read { image, base, ops: ops.clone(), shared }));
    }
    if mode != 0 {
        let its = gen_its(&mut ctx.t, &entries);
        let sched = ctx.t.draw(1 << 32);
        scens.push(Box::new(move |image, base| Scen::Iter { image, base, its: its.clone(), shared, sched }));
    }
    for s in &scens {
        world::install(plan.clone());
        let a = play(&s(v2.clone(), 0));
        world::install(plan.clone());
        let b = play(&s(v1.clone(), base));
        for (i, x) in a.log.iter().enumerate() {
            let Some(y) = b.log.get(i) else {
                return violation("v1-differs", format!("version 1: stopped before step {i} ({})", x.show()));
            };
            let same = if x.label == "Reader::new" {
                matches!((&x.out, &y.out), (StepOut::Ok, StepOut::Ok))
            } else {
                x.same(y)
            };
            if !same {
                return violation(
                    "v1-differs",
                    format!("step {i}: version 2: {}; version 1: {}", x.show(), y.show()),
                );
            }
            ctx.probe("steps_compared");
        }
        if b.log.len() > a.log.len() {
            return violation("v1-differs", format!("version 1 went on: {}", b.log[a.log.len()].show()));
        }
    }
    ctx.nontrivial = fmt::count_blocks(&v2) >= 3;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C13

fn check_open(ctx: &mut Ctx, id: usize, shared: bool, what: &dyn Fn() -> String) -> R<()> {
    let (want, len) = world::with(|w| (fmt::classify(&w.files[id].data), w.files[id].data.len()));
    let h = reader_handle(id, shared);
    let r = match guard("Reader::new", || Reader::new(h).map(|_| ())) {
        Ok(r) => r,
        Err(p) if p.livelock => {
            return violation("livelock", format!("opening {} ({len} bytes) never ends", what()))
        }
        Err(p) => return violation("panic", format!("opening {} ({len} bytes) panicked: {}", what(), p.msg)),
    };
    match (r, want) {
        (Ok(()), Some(t)) => {
            ctx.probe(if t.version == 1 { "accepted_v1" } else { "accepted_v2" });
            Ok(())
        }
        (Err(_), None) => {
            ctx.probe("rejected");
            Ok(())
        }
        (Ok(()), None) => violation(
            "accepted",
            format!("opening {} ({len} bytes) succeeds but there is no complete trailer; tail {}", what(), tail(id)),
        ),
        (Err(e), Some(t)) => violation(
            "rejected",
            format!("opening {} ({len} bytes) fails with {e:?} but it ends with {t:?}; tail {}", what(), tail(id)),
        ),
    }
}

fn tail(id: usize) -> String {
    world::with(|w| {
        let d = &w.files[id].data;
        let s = d.len().saturating_sub(24);
        d[s..].iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ")
    })
}

/// With `far`, a file long enough for any trailer begins with a hole of that size.
fn set_data(id: usize, far: u64, data: Vec<u8>) {
    world::with(|w| {
        w.files[id].base = if data.len() >= 22 { far } else { 0 };
        w.files[id].data = data;
        w.files[id].shared_pos = 0;
    })
}

/// A finished file, either version.
fn finished(ctx: &mut Ctx, max_bytes: usize) -> R<Vec<u8>> {
    let cfg = gen_cfg_levels(&mut ctx.t, true);
    let mut entries = gen_entries(&mut ctx.t, DataOpts { max_entries: 200, max_bytes, big: false });
    if aim_length(&mut ctx.t, &cfg, &mut entries, 12) {
        ctx.probe("aimed_file_length");
    }
    ctx.describe(|| format!("{cfg:?}; {}", describe_entries(&entries)));
    if ctx.t.chance(1, 4) {
        return Ok(fmt::encode(1, &entries, cfg.codec as u8, cfg.level, cfg.block_size, cfg.interval, 0));
    }
    let id = make_file(ctx, &cfg, &entries)?;
    Ok(world::file_bytes(id))
}

pub fn c13(ctx: &mut Ctx) -> R<()> {
    let shared = ctx.t.chance(1, 4);
    let plan = if ctx.t.chance(1, 2) { IoPlan::draw_benign(&mut ctx.t) } else { IoPlan::canonical() };
    world::install(IoPlan::canonical());
    let far = gen_base(&mut ctx.t, 300);
    if far > 0 {
        ctx.probe("far_trailers");
    }
    match ctx.t.weighted(&[5, 3, 4, 4, 4, 2]) {
        0 => {
            // every crash point of a finished file (the tail first), all when affordable
            let img = finished(ctx, 12_000)?;
            let id = world::new_file(img.clone());
            world::install(plan);
            let n = img.len();
            let cap = if ctx.tier == Tier::Thorough { 20_000 } else { 600 };
            let all = n <= cap;
            let mut cuts: Vec<usize> = (n.saturating_sub(if all { n } else { 80 })..=n).collect();
            if !all {
                for _ in 0..120 {
                    cuts.push(ctx.t.below(n));
                }
                cuts.sort_unstable();
                cuts.dedup();
            } else {
                ctx.probe("all_truncations");
            }
            let starts: Vec<usize> = if all {
                Vec::new()
            } else {
                fmt::split_blocks(&img)
                    .map(|(_, b)| b.iter().flat_map(|b| [b.offset as usize, b.offset as usize + 8]).take(100).collect())
                    .unwrap_or_default()
            };
            for cut in cuts.into_iter().chain(starts) {
                set_data(id, far, img[..cut].to_vec());
                check_open(ctx, id, shared, &|| format!("a file of {n} bytes truncated to {cut}"))?;
                ctx.probe("truncations");
            }
            ctx.nontrivial = true;
        }
        1 => {
            // a crash while overwriting an older file in place: new prefix, old tail; lost pages
            let new = finished(ctx, 8_000)?;
            let old = finished(ctx, 16_000)?;
            let id = world::new_file(Vec::new());
            world::install(plan);
            for _ in 0..60 {
                let cut = match ctx.t.draw(3) {
                    0 => ctx.t.range(0, new.len()),
                    1 => new.len() - ctx.t.range(0, new.len().min(30)),
                    _ => new.len(),
                };
                let mut img = new[..cut].to_vec();
                match ctx.t.draw(4) {
                    0 => {
                        if old.len() > cut {
                            img.extend_from_slice(&old[cut..]);
                        }
                    }
                    1 => {
                        // sized ahead of the data
                        img.resize(new.len(), 0);
                    }
                    2 => {
                        // lost write in the middle or at the end
                        if !img.is_empty() {
                            let a = ctx.t.below(img.len());
                            let n = ctx.t.pick(&[1usize, 4, 22, 512]).min(img.len() - a);
                            img[a..a + n].fill(0);
                        }
                    }
                    _ => {
                        // appended garbage
                        let n = ctx.t.range(1, 30);
                        let s = ctx.t.seed();
                        img.extend(bytes_from(s, n, 1));
                    }
                }
                set_data(id, far, img);
                check_open(ctx, id, shared, &|| format!("a torn image (cut at {cut})"))?;
                ctx.probe("torn_images");
            }
            ctx.nontrivial = true;
        }
        2 => {
            // every trailer byte corrupted
            let img = finished(ctx, 3_000)?;
            let id = world::new_file(img.clone());
            world::install(plan);
            let n = img.len();
            let t = if fmt::classify(&img).map(|t| t.version) == Some(1) { 21 } else { 22 };
            let full = ctx.t.range(1, t);
            for back in 1..=t + 2 {
                if back > n {
                    break;
                }
                let orig = img[n - back];
                let vals: Vec<u8> = if back == full || ctx.tier == Tier::Thorough {
                    ctx.probe("all_values_of_a_trailer_byte");
                    (0..=255).collect()
                } else {
                    let r = ctx.t.draw(256) as u8;
                    vec![orig ^ 1, orig ^ 0x80, 0, 255, 5, 6, orig.wrapping_add(1), r]
                };
                for v in vals {
                    let mut d = img.clone();
                    d[n - back] = v;
                    set_data(id, far, d);
                    check_open(ctx, id, shared, &|| format!("a file with byte -{back} set to {v}"))?;
                    ctx.probe("trailer_corruptions");
                }
            }
            ctx.nontrivial = true;
        }
        3 => {
            // arbitrary strings around the trailer sizes
            world::install(plan);
            let id = world::new_file(Vec::new());
            for _ in 0..80 {
                let n = match ctx.t.weighted(&[4, 2, 1]) {
                    0 => ctx.t.range(0, 30),
                    1 => ctx.t.pick(&[0usize, 3, 4, 20, 21, 22, 23, 25, 26]),
                    _ => ctx.t.range(0, 200),
                };
                let seed = ctx.t.seed();
                let mut d = bytes_from(seed, n, ctx.t.draw(3));
                if ctx.t.chance(1, 8) {
                    d.fill(ctx.t.pick(&[0u8, 0xff]));
                }
                let magic = ctx.t.weighted(&[3, 3, 1, 1, 1]);
                let m = match magic {
                    0 => Some(fmt::MAGIC_V2.to_le_bytes()),
                    1 => Some(fmt::MAGIC_V1.to_le_bytes()),
                    2 => Some(fmt::MAGIC_V2.to_be_bytes()),
                    3 => Some(fmt::MAGIC_V1.to_be_bytes()),
                    _ => None,
                };
                if let Some(m) = m {
                    if n >= 4 {
                        d[n - 4..].copy_from_slice(&m);
                    } else {
                        d.copy_from_slice(&m[4 - n..]);
                    }
                    if ctx.t.chance(2, 3) {
                        // a codec id near the border in the right place
                        let back = if magic % 2 == 0 { 14 } else { 13 };
                        if n >= back {
                            d[n - back] = ctx.t.draw(8) as u8;
                        }
                    }
                }
                set_data(id, far, d);
                check_open(ctx, id, shared, &|| "an arbitrary string".to_string())?;
                ctx.probe("arbitrary_strings");
            }
            ctx.nontrivial = true;
        }
        4 => {
            // a writer whose sink fails or whose process dies, then recovery opens what is left
            let cfg = gen_cfg_levels(&mut ctx.t, false);
            let entries = gen_entries(&mut ctx.t, DataOpts { max_entries: 200, max_bytes: 20_000, big: false });
            ctx.describe(|| format!("failing sink, {cfg:?}; {}", describe_entries(&entries)));
            let mut wplan = IoPlan::draw_benign(&mut ctx.t);
            // count the writes first
            world::install(wplan.clone());
            let before = world::with(|w| w.op_no[Op::Write as usize]);
            benign_or(write_file(&cfg, &entries))?;
            let writes = world::with(|w| w.op_no[Op::Write as usize]) - before;
            for _ in 0..12 {
                let nth = if ctx.t.chance(1, 2) {
                    1 + ctx.t.draw(writes.max(1))
                } else {
                    writes.saturating_sub(ctx.t.draw(8)).max(1)
                };
                let effect = match ctx.t.draw(3) {
                    0 => Effect::Err(ctx.t.draw(16) as u8),
                    1 => Effect::Zero,
                    _ => Effect::Err(14),
                };
                wplan.faults =
                    vec![FaultSpec { ops: 1 << Op::Write as u8, file: None, nth, effect, sticky: true, seen: 0 }];
                world::install(wplan.clone());
                let sink = SimFile::create();
                let id = sink.id;
                // dies in the middle without finishing
                let stop = if ctx.t.chance(1, 3) { ctx.t.below(entries.len() + 1) } else { usize::MAX };
                let r = guard("failing writer", || -> std::io::Result<()> {
                    let mut w = cfg.build(sink);
                    for (i, (k, v)) in entries.iter().enumerate() {
                        if i == stop {
                            return Ok(());
                        }
                        w.insert(k, v)?;
                    }
                    w.into_inner().map(drop)
                });
                if r.is_err() {
                    return inconclusive("the failing writer panicked");
                }
                world::install(plan.clone());
                check_open(ctx, id, shared, &|| format!("what a writer left (write {nth} failed)"))?;
                ctx.probe("failed_writers");
            }
            ctx.nontrivial = true;
        }
        _ => {
            // the standard cursor over bytes
            let img = finished(ctx, 4_000)?;
            world::install(plan);
            let id = world::new_file(img.clone());
            for _ in 0..20 {
                let n = match ctx.t.draw(2) {
                    0 => ctx.t.range(0, img.len()),
                    _ => img.len() - ctx.t.range(0, img.len().min(25)),
                };
                let mut d = img[..n].to_vec();
                if ctx.t.chance(1, 2) && n > 0 {
                    let i = n - 1 - ctx.t.below(n.min(24));
                    d[i] = ctx.t.draw(256) as u8;
                }
                let want = fmt::classify(&d).is_some();
                let pos = if ctx.t.chance(1, 4) { ctx.t.pick(&[0u64, 7, u64::MAX, 1 << 40]) } else { 0 };
                let got = call("Reader::new", || {
                    let mut c = Cursor::new(&d[..]);
                    c.set_position(pos);
                    Reader::new(c).is_ok()
                })?;
                if got != want {
                    return violation(
                        if got { "accepted" } else { "rejected" },
                        format!("std::io::Cursor over {} bytes: opened {got}, complete trailer {want}", d.len()),
                    );
                }
                set_data(id, far, d);
                // a handle that was left somewhere in the middle
                world::with(|w| w.files[id].shared_pos = pos.min(1 << 40));
                check_open(ctx, id, true, &|| "a handle positioned elsewhere".to_string())?;
            }
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C15

fn check_cuts(what: &str, img: &[u8], block_size: usize) -> R<(usize, usize)> {
    let d = match fmt::decode(img, None) {
        Ok(d) => d,
        Err(m) => return inconclusive(format!("{what} cannot be decoded: {m}")),
    };
    let b = block_size.max(1024);
    let mut deep = 0;
    for (level, list) in
        std::iter::once((None, &d.data)).chain(d.index.iter().enumerate().skip(2).map(|(l, x)| (Some(l), x)))
    {
        let name = || match level {
            None => "data block".to_string(),
            Some(l) => format!("index block of level {l}"),
        };
        for (i, bi) in list.iter().enumerate() {
            let blk = &d.blocks[*bi];
            if level.is_some() {
                deep += 1;
            }
            if i + 1 < list.len() && blk.size < b {
                return violation(
                    "cut-early",
                    format!("{what}: {} at {} was emitted with {} bytes, block size {b}", name(), blk.offset, blk.size),
                );
            }
            let Some(last) = blk.entries.last() else { continue };
            let in_table = blk.entries.len() > 1 && blk.table.last() == Some(&(last.0 as u64));
            let before = last.0 + (blk.table.len() - in_table as usize) * 8 + 4;
            // a block of a single entry holds nothing before it
            if blk.entries.len() > 1 && before >= b {
                return violation(
                    "cut-late",
                    format!(
                        "{what}: {} at {} of {} bytes and {} entries: without its last entry it has {before} bytes, block size {b}",
                        name(),
                        blk.offset,
                        blk.size,
                        blk.entries.len()
                    ),
                );
            }
        }
    }
    Ok((d.data.len(), deep))
}

pub fn c15(ctx: &mut Ctx) -> R<()> {
    if ctx.t.chance(1, 8) {
        let (scen, cfg) = gen_kept_sort(ctx, 60_000, 600);
        let p = play(&scen);
        if !p.log.iter().all(|s| matches!(s.out, StepOut::Ok)) {
            return inconclusive("the sorter failed");
        }
        let mut blocks = 0;
        for (name, img) in &p.outputs {
            let bs = match (&scen, name.as_str()) {
                (Scen::Sort { out: SortOut::Writer(w), .. }, "sink") => w.block_size,
                _ => cfg.block_size.unwrap_or(8192),
            };
            blocks += check_cuts(&format!("sorter {name}"), img, bs)?.0;
        }
        ctx.probe("sorter_files");
        ctx.nontrivial = blocks > p.outputs.len();
        return Ok(());
    }
    let mut cfg = gen_cfg_levels(&mut ctx.t, false);
    if ctx.t.chance(1, 2) {
        cfg.levels = ctx.t.range(2, 6) as u8;
    }
    let opts = if ctx.tier == Tier::Thorough && ctx.t.chance(1, 10) {
        DataOpts { max_entries: 20_000, max_bytes: 4_000_000, big: true }
    } else {
        DataOpts { max_entries: 1200, max_bytes: 300_000, big: true }
    };
    let mut entries = gen_entries(&mut ctx.t, opts);
    if widen(&mut ctx.t, &mut cfg, &mut entries, 120, usize::MAX) {
        ctx.probe("wide_population");
    }
    ctx.describe(|| format!("{cfg:?}; {}", describe_entries(&entries)));
    world::install(IoPlan::draw_benign(&mut ctx.t));
    let id = benign_or(write_file(&cfg, &entries))?;
    let img = world::file_bytes(id);
    let (data, deep) = check_cuts("the file", &img, cfg.block_size)?;
    if deep > cfg.levels as usize {
        ctx.probe("several_blocks_in_a_deep_index_level");
    }
    ctx.nontrivial = data >= 2;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C16

pub fn c16(ctx: &mut Ctx) -> R<()> {
    let mut cfg = gen_cfg_levels(&mut ctx.t, false);
    if cfg.block_size > 4096 && ctx.t.chance(1, 2) {
        cfg.block_size = 1024;
    }
    let max = if ctx.tier == Tier::Thorough && ctx.t.chance(1, 10) { 3_000_000 } else { 150_000 };
    let mut entries = gen_entries(&mut ctx.t, DataOpts { max_entries: 6000, max_bytes: max, big: false });
    if widen(&mut ctx.t, &mut cfg, &mut entries, 200, 131_073) {
        ctx.probe("wide_population");
    }
    ctx.describe(|| format!("{cfg:?}; {}", describe_entries(&entries)));
    world::install(IoPlan::canonical());
    let v1 = ctx.t.chance(1, 8);
    let id = if v1 {
        cfg.levels = 0;
        world::new_file(fmt::encode(1, &entries, cfg.codec as u8, cfg.level, cfg.block_size, cfg.interval, 0))
    } else {
        make_file(ctx, &cfg, &entries)?
    };
    let img = world::file_bytes(id);
    // offsets and stored lengths, no decompression needed
    let mut starts = std::collections::BTreeSet::new();
    let mut biggest = 0u64;
    {
        let limit = img.len() as u64 - if v1 { 21 } else { 22 };
        let mut at = 0u64;
        while at + 8 <= limit {
            let len = img[at as usize..at as usize + 8].iter().fold(0u64, |a, b| a << 8 | *b as u64);
            starts.insert(at);
            biggest = biggest.max(len + 8);
            at += 8 + len;
        }
    }
    let file_len = img.len() as u64;
    drop(img);
    let max_loads = 2 * (cfg.levels as u64 + 2);
    let max_bytes = max_loads * biggest + 65_536;
    let mut plan = IoPlan::draw_benign(&mut ctx.t);
    if ctx.t.chance(1, 6) {
        plan.err_read = ctx.t.pick(&[300u32, 3000]);
        if plan.seed == 0 {
            plan.seed = ctx.t.seed();
        }
    }
    let mut calm = plan.clone();
    calm.err_read = 0;
    world::install(calm);
    world::with(|w| w.files[id].read_log = Some(Vec::new()));
    let take = || world::with(|w| std::mem::replace(w.files[id].read_log.as_mut().unwrap(), Vec::new()));
    let shared = ctx.t.chance(1, 4);

    let r = match guard("Reader::new", || Reader::new(reader_handle(id, shared))) {
        Ok(Ok(r)) => r,
        _ => return inconclusive("the file does not open"),
    };
    for (pos, n) in take() {
        if n > 0 && pos + 22 < file_len {
            return violation(
                "open-reads",
                format!("opening a file of {file_len} bytes reads {n} bytes at {pos}, outside the trailer"),
            );
        }
    }
    let judge = |label: &str, log: Vec<(u64, u64)>| -> R<u64> {
        let loads = log.iter().filter(|(p, n)| *n > 0 && starts.contains(p)).count() as u64;
        let bytes: u64 = log.iter().map(|x| x.1).sum();
        if loads > max_loads {
            return violation(
                "too-many-loads",
                format!(
                    "{label} loaded {loads} blocks, {} index levels allow {max_loads} (file of {} blocks)",
                    cfg.levels,
                    starts.len()
                ),
            );
        }
        if bytes > max_bytes {
            return violation(
                "too-many-bytes",
                format!("{label} read {bytes} bytes, {max_loads} blocks of at most {biggest} bytes are allowed"),
            );
        }
        Ok(loads)
    };
    let c = match guard("Reader::into_cursor", || r.into_cursor()) {
        Ok(Ok(c)) => c,
        _ => return inconclusive("no cursor"),
    };
    judge("Reader::into_cursor", take())?;
    world::install(plan);
    let mut pop = vec![c];
    let ops = [
        CurOp::Next,
        CurOp::Prev,
        CurOp::First,
        CurOp::Last,
        CurOp::Ge,
        CurOp::Le,
        CurOp::Eq,
        CurOp::Reset,
        CurOp::Clone,
    ];
    let mut weights: [u32; 9] = [8, 8, 2, 2, 6, 6, 5, 1, 1];
    for w in weights.iter_mut() {
        match ctx.t.draw(6) {
            4 => *w = 0,
            5 => *w *= 8,
            _ => {}
        }
    }
    if weights.iter().sum::<u32>() == 0 {
        weights[0] = 1;
    }
    let mut most = 0;
    let mut done = 0;
    let (n, mut rec) = ctx.t.list_begin(1, if ctx.tier == Tier::Thorough { 300 } else { 120 });
    let mut stop = false;
    for _ in 0..n {
        let start = ctx.t.vals.len();
        let ci = ctx.t.below(pop.len());
        let op = ops[ctx.t.weighted(&weights)];
        match op {
            CurOp::Reset => {
                if guard("ReaderCursor::reset", || pop[ci].reset()).is_err() {
                    stop = true;
                }
                judge("reset", take())?;
            }
            CurOp::Clone => {
                match guard("ReaderCursor::clone", || pop[ci].clone()) {
                    Ok(c2) if pop.len() < 3 => pop.push(c2),
                    Ok(c2) => pop[(ci + 1) % 3] = c2,
                    Err(_) => stop = true,
                }
                judge("clone", take())?;
            }
            _ => {
                let q = if matches!(op, CurOp::Ge | CurOp::Le | CurOp::Eq) {
                    gen_probe(&mut ctx.t, &entries)
                } else {
                    Vec::new()
                };
                let times = if matches!(op, CurOp::Next | CurOp::Prev) { ctx.t.range(1, 40) } else { 1 };
                for _ in 0..times {
                    let c = &mut pop[ci];
                    let label = crate::props::read::seek_name(op);
                    let r = guard(label, || {
                        match op {
                            CurOp::First => c.move_on_first(),
                            CurOp::Last => c.move_on_last(),
                            CurOp::Next => c.move_on_next(),
                            CurOp::Prev => c.move_on_prev(),
                            CurOp::Ge => c.move_on_key_greater_than_or_equal_to(&q),
                            CurOp::Le => c.move_on_key_lower_than_or_equal_to(&q),
                            _ => c.move_on_key_equal_to(&q),
                        }
                        .map(|g| g.is_some())
                    });
                    let loads = judge(label, take())?;
                    most = most.max(loads);
                    done += 1;
                    match r {
                        Ok(Ok(true)) => {}
                        Ok(_) => break,
                        Err(_) => {
                            stop = true;
                            break;
                        }
                    }
                }
            }
        }
        rec.items.push((start, ctx.t.vals.len()));
        if stop {
            break;
        }
    }
    ctx.t.list_end(rec);
    ctx.probe_n("operations_bounded", done);
    if most > cfg.levels as u64 + 2 {
        ctx.probe("more_loads_than_one_descent");
    }
    // a scan would be visible
    ctx.nontrivial = starts.len() as u64 > 2 * max_loads;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18

/// The layout rules: which insert must panic.
struct Layout {
    cfg: WCfg,
    data: Pending,
    idx: Vec<Pending>,
    out: Vec<u8>,
}

impl Layout {
    fn new(cfg: &WCfg) -> Layout {
        Layout {
            cfg: *cfg,
            data: Pending::new(),
            idx: vec![Pending::new(); cfg.levels as usize + 1],
            out: Vec::new(),
        }
    }
    fn ordered(p: &Pending, k: &[u8]) -> bool {
        p.n == 0 || k > p.last.as_slice()
    }
    /// Some(kind): the writer must panic
    fn insert(&mut self, k: &[u8], v: &[u8]) -> Option<&'static str> {
        let iv = self.cfg.interval;
        if !Self::ordered(&self.data, k) {
            return Some("must_panic:data_block_order");
        }
        self.data.add(iv, k, v);
        let b = self.cfg.block_size.max(1024);
        if self.data.size() >= b {
            let nl = self.idx.len();
            let (last, off) = (self.data.last.clone(), self.out.len() as u64);
            if !Self::ordered(&self.idx[nl - 1], &last) {
                return Some("must_panic:lowest_index_order");
            }
            self.idx[nl - 1].add(iv, &last, &off.to_be_bytes());
            self.data.emit(self.cfg.codec as u8, self.cfg.level, &mut self.out);
            for l in (2..nl).rev() {
                if self.idx[l].size() >= b {
                    let (last, off) = (self.idx[l].last.clone(), self.out.len() as u64);
                    if !Self::ordered(&self.idx[l - 1], &last) {
                        return Some("must_panic:upper_index_order");
                    }
                    self.idx[l - 1].add(iv, &last, &off.to_be_bytes());
                    self.idx[l].emit(self.cfg.codec as u8, self.cfg.level, &mut self.out);
                }
            }
        }
        None
    }
    fn finish(&mut self) -> bool {
        let iv = self.cfg.interval;
        let nl = self.idx.len();
        if self.data.n > 0 {
            let (last, off) = (self.data.last.clone(), self.out.len() as u64);
            if !Self::ordered(&self.idx[nl - 1], &last) {
                return false;
            }
            self.idx[nl - 1].add(iv, &last, &off.to_be_bytes());
            self.data.emit(self.cfg.codec as u8, self.cfg.level, &mut self.out);
        }
        for l in (1..nl).rev() {
            if self.idx[l].n > 0 {
                let (last, off) = (self.idx[l].last.clone(), self.out.len() as u64);
                if !Self::ordered(&self.idx[l - 1], &last) {
                    return false;
                }
                self.idx[l - 1].add(iv, &last, &off.to_be_bytes());
                self.idx[l].emit(self.cfg.codec as u8, self.cfg.level, &mut self.out);
            }
        }
        true
    }
}

/// The real writer was in step with the layout rules before the current call.
fn in_step(id: usize, layout: &Layout, before: usize) -> bool {
    let sink = world::file_bytes(id);
    sink.len() >= before && sink.len() <= layout.out.len() && sink == layout.out[..sink.len()]
}

struct Producer {
    prefix: Vec<u8>,
    tail: usize,
}
impl Producer {
    fn key(&self, x: u32) -> Vec<u8> {
        let mut k = self.prefix.clone();
        k.extend_from_slice(&x.to_be_bytes());
        if self.tail > 0 {
            k.extend(std::iter::repeat(b't').take(x as usize % self.tail));
        }
        k
    }
}

fn gen_producer(t: &mut Tape) -> Producer {
    Producer {
        prefix: vec![
            b'p';
            match t.weighted(&[3, 3, 3]) {
                0 => 0,
                1 => t.range(0, 60),
                _ => t.range(100, 500),
            }
        ],
        tail: t.pick(&[0usize, 0, 5]),
    }
}

pub fn c18(ctx: &mut Ctx) -> R<()> {
    let mut cfg = gen_cfg_levels(&mut ctx.t, false);
    if ctx.t.chance(3, 4) {
        cfg.codec = grenad::CompressionType::None;
    }
    if cfg.block_size > 4096 && ctx.t.chance(2, 3) {
        cfg.block_size = 1024;
    }
    cfg.levels = cfg.levels.min(12);
    let prod = gen_producer(&mut ctx.t);
    let vlen = ctx.t.pick(&[4usize, 0, 30, 250, 600, 1100]);
    let rate = ctx.t.pick(&[0u64, 1, 8, 40]);
    let after_cut = ctx.t.pick(&[0u64, 30, 200, 700]);
    let index_after_cut = ctx.t.pick(&[0u64, 100, 600]);
    let tiny = ctx.t.chance(1, 6);
    let max = if prod.prefix.len() > 60 || vlen > 100 { 160 } else { 400 };
    let max = if tiny { 12 } else { max };
    let plan = IoPlan::draw_benign(&mut ctx.t);
    ctx.describe(|| format!("{cfg:?}; keys of {}+4 bytes, values of {vlen}", prod.prefix.len()));
    world::install(plan);
    let sink = SimFile::create();
    let id = sink.id;
    let mut w = match guard("WriterBuilder::build", || cfg.build(sink)) {
        Ok(w) => w,
        Err(_) => return inconclusive("builder panicked"),
    };
    let mut layout = Layout::new(&cfg);
    // the model says: must have panicked at this insert, but it returned
    let mut missed: Option<(usize, String)> = None;
    let mut next = 10u32;
    let mut sent: Vec<u32> = Vec::new();
    let mut sent_keys: Vec<Vec<u8>> = Vec::new();
    let mut max_key: Option<Vec<u8>> = None;
    let mut out_of_order = 0u64;
    let mut max_sent: Option<u32> = None;
    let (n, mut rec) = ctx.t.list_begin(0, max);
    let mut just_cut = false;
    let mut queue: Vec<u32> = Vec::new();
    let mut ended = false;
    for step in 0..n {
        let start = ctx.t.vals.len();
        // the producer: mostly ascending, with redeliveries, duplicates and reorderings
        let p = if just_cut { after_cut.max(rate) } else { rate };
        let index_cut = just_cut && layout.idx.len() > 2 && layout.idx[layout.idx.len() - 1].n == 0;
        let p = if index_cut { p.max(index_after_cut) } else { p };
        let fault = missed.is_none() && !sent.is_empty() && ctx.t.chance(p, 1024);
        let mut mangled = None;
        let x = if missed.is_some() {
            queue.clear();
            next += 1;
            while max_key.as_ref().is_some_and(|m| prod.key(next) <= *m) {
                next += 1;
            }
            next
        } else if let Some(x) = queue.pop() {
            x
        } else if fault {
            match ctx.t.weighted(if index_cut { &[1, 1, 12, 1, 1, 1, 1] } else { &[4, 2, 3, 2, 2, 1, 5] }) {
                // duplicate
                0 => *sent.last().unwrap(),
                // just below
                1 => sent.last().unwrap().saturating_sub(1),
                // an old batch again, possibly all of it
                2 => {
                    let back = 1 + ctx.t.below(sent.len().min(60));
                    let tail = &sent[sent.len() - back..];
                    queue = tail.iter().rev().copied().collect();
                    queue.pop().unwrap()
                }
                // two neighbours swapped
                3 => {
                    next += 4;
                    queue.push(next - 2);
                    next
                }
                // the very first key
                4 => sent[0],
                // a damaged copy of a recent key
                6 => {
                    let back = if ctx.t.chance(3, 4) { 0 } else { ctx.t.below(sent_keys.len().min(20)) };
                    let mut k = sent_keys[sent_keys.len() - 1 - back].clone();
                    match ctx.t.weighted(&[4, 3, 2, 2, 2]) {
                        // cut
                        0 => {
                            let cut = if ctx.t.chance(2, 3) { 1 } else { ctx.t.range(1, 12) };
                            k.truncate(k.len().saturating_sub(cut));
                        }
                        // one byte lower, anywhere
                        1 => {
                            if !k.is_empty() {
                                let i = ctx.t.below(k.len());
                                k[i] = k[i].saturating_sub(1 + ctx.t.draw(3) as u8);
                            }
                        }
                        // one byte lower near the end, longer
                        2 => {
                            let n = k.len();
                            if n > 0 {
                                let i = n - 1 - ctx.t.below(n.min(4));
                                k[i] = k[i].saturating_sub(1);
                                k.resize(n + ctx.t.range(0, 9), 0xff);
                            }
                        }
                        // a zero byte more: above, by the least possible
                        3 => k.push(0),
                        _ => k.clear(),
                    }
                    mangled = Some(k);
                    next
                }
                _ => ctx.t.draw(next as u64 + 10) as u32,
            }
        } else {
            next = next.max(max_sent.unwrap_or(0)) + 1 + if ctx.t.chance(1, 16) { 3 } else { 0 };
            while max_key.as_ref().is_some_and(|m| prod.key(next) <= *m) {
                next += 1;
            }
            next
        };
        let k = mangled.unwrap_or_else(|| prod.key(x));
        let v = bytes_from(step as u64, vlen, 0);
        // with tails keys are ordered like their numbers
        let ascending_so_far = out_of_order == 0 && max_key.as_ref().map_or(true, |m| *m < k);
        let above_all = max_key.as_ref().map_or(true, |m| *m < k);
        if !above_all {
            out_of_order += 1;
        }
        let synced_before = missed.is_none();
        let before = layout.out.len();
        let must = if synced_before { layout.insert(&k, &v) } else { None };
        let allowed = must.is_none();
        if let Some(m) = must {
            ctx.probe(m);
        }
        let r = guard("Writer::insert", || w.insert(&k, &v));
        match r {
            Err(p) => {
                if missed.is_some() {
                    let (at, why) = missed.unwrap();
                    return violation(
                        "late-panic",
                        format!("insert {at} ({why}) returned, the writer panics only at insert {step} whose key is above every other: {}", p.msg),
                    );
                }
                if ascending_so_far {
                    return violation("spurious-panic", format!("strictly ascending inserts, insert {step} panicked: {}", p.msg));
                }
                if allowed {
                    if in_step(id, &layout, before) {
                        return violation(
                            "spurious-panic",
                            format!(
                                "insert {step} of {} panicked although its key is above the preceding key of the block and every recorded last key above the preceding index key: {}",
                                show(&k),
                                p.msg
                            ),
                        );
                    }
                    return inconclusive("another block layout");
                }
                ctx.probe("panicked_at_insert");
                ended = true;
            }
            Ok(Err(e)) => return inconclusive(format!("insert failed: {e:?}")),
            Ok(Ok(())) => {
                if synced_before && !allowed {
                    missed = Some((step, show(&k)));
                    next = next.max(max_sent.unwrap_or(0)).max(x) + 5;
                    ctx.probe("missed_panic_candidates");
                }
            }
        }
        just_cut = layout.data.n == 0;
        sent.push(x);
        if max_key.as_ref().map_or(true, |m| *m < k) {
            max_key = Some(k.clone());
        }
        sent_keys.push(k);
        max_sent = Some(max_sent.map_or(x, |m| m.max(x)));
        rec.items.push((start, ctx.t.vals.len()));
        if ended {
            break;
        }
        if let Some((at, _)) = missed {
            if step > at + 6 {
                break;
            }
        }
    }
    ctx.t.list_end(rec);
    ctx.nontrivial = out_of_order > 0;
    if ended {
        let _ = guard("drop", move || drop(w));
        return Ok(());
    }
    let before = layout.out.len();
    let allowed = missed.is_some() || layout.finish();
    match guard("Writer::into_inner", || w.into_inner().map(drop)) {
        Err(p) => {
            if let Some((at, why)) = missed {
                return violation(
                    "late-panic",
                    format!("insert {at} ({why}) returned, the writer panics only when it is finished: {}", p.msg),
                );
            }
            if out_of_order == 0 {
                return violation("spurious-panic", format!("strictly ascending inserts, into_inner panicked: {}", p.msg));
            }
            if allowed {
                if in_step(id, &layout, before) {
                    return violation(
                        "spurious-panic",
                        format!("into_inner panicked although every last key is above the preceding index key: {}", p.msg),
                    );
                }
                return inconclusive("another block layout");
            }
            ctx.probe("panicked_at_finish");
            Ok(())
        }
        Ok(Err(e)) => inconclusive(format!("into_inner failed: {e:?}")),
        Ok(Ok(())) => {
            let img = world::file_bytes(id);
            let (_, blocks) = match fmt::split_blocks(&img) {
                Ok(x) => x,
                Err(m) => return inconclusive(format!("the file cannot be split in blocks: {m}")),
            };
            for b in &blocks {
                for w in b.entries.windows(2) {
                    if w[0].1 >= w[1].1 {
                        return violation(
                            "unsorted-block",
                            format!(
                                "the finished file has a block at {} with {} followed by {}",
                                b.offset,
                                show(&w[0].1),
                                show(&w[1].1)
                            ),
                        );
                    }
                }
            }
            if out_of_order > 0 {
                ctx.probe("unsorted_input_in_separate_blocks");
            }
            if layout.idx.len() > 2 {
                ctx.probe("finished_multi_level");
            }
            Ok(())
        }
    }
}

