//! A few runs per check with gigabytes: files and blocks with offsets over 2^32, entries over 2^32 bytes.
//! The values are tiles in virtual memory and the disk stores equal pages once, so that the memory needed
//! is what the code under test allocates.

use std::num::NonZeroUsize;
use std::time::Duration;

use grenad::CompressionType;

use crate::ctx::*;
use crate::gen::*;
use crate::props::framing::{self, available_memory, plain_scfg, Tiled};
use crate::props::read::{open, Cur};
use crate::props::{files, mem, merge, read};
use crate::scen::*;
use crate::tape::mix2;
use crate::world::{self, SimFile};

/// More virtual memory than other runs may have.
pub struct Room(libc::rlimit);

impl Room {
    pub fn new() -> Room {
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        // SAFETY: plain system calls.
        unsafe {
            libc::getrlimit(libc::RLIMIT_AS, &mut old);
            let new = libc::rlimit { rlim_cur: old.rlim_max, rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_AS, &new);
        }
        Room(old)
    }
}

impl Drop for Room {
    fn drop(&mut self) {
        // SAFETY: a plain system call.
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &self.0) };
    }
}

fn is_large(prop: &str, index: u64, tier: Tier) -> bool {
    match prop {
        "C01" | "C06" | "C09" | "C17" => index < 2,
        "C14" => framing::is_giant(index, tier),
        _ => false,
    }
}

/// How long a run may take before it is considered to be stuck; the large ones take less than 25 seconds
/// alone and about twice that beside others.
pub fn patience(prop: &str, index: u64, tier: Tier) -> Duration {
    Duration::from_secs(if is_large(prop, index, tier) { 180 } else { 60 })
}

pub fn c01(ctx: &mut Ctx) -> R<()> {
    if !is_large("C01", ctx.index, ctx.tier) {
        return read::c01(ctx);
    }
    match ctx.index {
        0 => trip(ctx, &Shape { values: 17, len: (1 << 28) + 13, block_size: 1024, old_writer: false, old_reader: false }),
        _ => trip(ctx, &Shape { values: 3, len: 1_500_000_007, block_size: 1 << 40, old_writer: false, old_reader: false }),
    }
}

pub fn c09(ctx: &mut Ctx) -> R<()> {
    if !is_large("C09", ctx.index, ctx.tier) {
        return files::c09(ctx);
    }
    trip(
        ctx,
        &Shape {
            values: 17,
            len: (1 << 28) + 1717,
            block_size: 4096,
            old_writer: ctx.index == 1,
            old_reader: ctx.index == 0,
        },
    )
}

/// More sources than 16 bits can number.
pub fn c06(ctx: &mut Ctx) -> R<()> {
    if !is_large("C06", ctx.index, ctx.tier) {
        return merge::c06(ctx);
    }
    ctx.nontrivial = true;
    ctx.probe("over_65536_sources");
    let n = 65_537 + ctx.t.below(3000);
    let files = 23;
    world::install(world::IoPlan::canonical());
    let cfg = WCfg { levels: ctx.t.draw(2) as u8, ..WCfg::default_cfg() };
    let mut ids = Vec::new();
    let mut content: Vec<Vec<Kv>> = Vec::new();
    for f in 0..files as u8 {
        let keys: &[&[u8]] = match f % 4 {
            0 => &[b"a", b"b"],
            1 => &[b"b", b"c"],
            2 => &[b"b"],
            _ => &[],
        };
        let entries: Vec<Kv> = keys.iter().map(|k| (k.to_vec(), vec![f])).collect();
        ids.push(write_file(&cfg, &entries)?);
        content.push(entries);
    }
    ctx.describe(|| format!("{n} sources, clones of cursors on {files} files"));
    let seed = ctx.t.seed();
    let pick = |i: usize| (mix2(seed, i as u64) % files as u64) as usize;
    let protos: Vec<Cur> = ids.iter().map(|id| read::open_cursor(*id, false)).collect::<R<_>>()?;
    let mut want: std::collections::BTreeMap<Vec<u8>, Vec<u8>> = Default::default();
    for i in 0..n {
        for (k, v) in &content[pick(i)] {
            want.entry(k.clone()).or_default().extend_from_slice(v);
        }
    }
    let m = call("MergerBuilder", || {
        let mut b = grenad::Merger::builder(SimMf(MfKind::Concat));
        b.extend((0..n).map(|i| protos[pick(i)].clone()));
        b.build()
    })?;
    let mut it = call_ok("Merger::into_stream_merger_iter", || m.into_stream_merger_iter())?;
    for want in want.iter().map(Some).chain([None]) {
        let got = call_ok("MergerIter::next", || it.next().map(own))?;
        let same = match (&got, want) {
            (None, None) => true,
            (Some((k, v)), Some((wk, wv))) => k == wk && v == wv,
            _ => false,
        };
        if !same {
            let at = match (&got, want) {
                (Some((_, v)), Some((_, wv))) => v.iter().zip(wv).position(|(a, b)| a != b),
                _ => None,
            };
            return violation(
                "wrong-content",
                format!("the merge of {n} sources: key {:?}, expected {:?}, values differ at {at:?}", got.map(|e| e.0), want.map(|e| e.0)),
            );
        }
    }
    Ok(())
}

struct Shape {
    /// how many of them
    values: usize,
    /// their length
    len: usize,
    block_size: usize,
    old_writer: bool,
    old_reader: bool,
}

/// Small entries before, between and behind a few huge ones.
fn trip(ctx: &mut Ctx, s: &Shape) -> R<()> {
    let _room = Room::new();
    let total = s.values * s.len;
    let need = if s.block_size > total { total * 3 } else { s.len * 4 };
    let tile = Tiled::new(s.len, 77 + ctx.index);
    let Some(tile) = tile.filter(|_| available_memory() > need + (4 << 30)) else {
        ctx.probe("large_run_skipped_for_memory");
        return Ok(());
    };
    ctx.probe(if s.block_size > total { "block_over_4_gigabytes" } else { "file_over_4_gigabytes" });
    ctx.nontrivial = true;
    let interval = 1 + ctx.t.draw(3) as usize;
    let levels = ctx.t.draw(3) as u8;
    let small = ctx.t.range(3, 60);
    let mut entries: Vec<(Vec<u8>, &[u8])> = Vec::new();
    for i in 0..=s.values {
        for j in 0..small {
            entries.push((vec![i as u8, j as u8 + 1], tile.slice(ctx.t.range(0, 200))));
        }
        if i < s.values {
            entries.push((vec![i as u8, 0xff], tile.slice(s.len - i)));
        }
    }
    ctx.describe(|| {
        format!(
            "{} values of about {} bytes, {small} small entries around each, block size {}, interval {interval}, {levels} levels",
            s.values, s.len, s.block_size
        )
    });
    world::install(world::IoPlan::canonical());
    let sink = SimFile::create_paged();
    let id = sink.id;
    if s.old_writer {
        setup("0.4.7 writer", || {
            let mut b = grenad_0_4::WriterBuilder::new();
            b.compression_type(grenad_0_4::CompressionType::None);
            b.block_size(s.block_size);
            b.index_key_interval(NonZeroUsize::new(interval).unwrap());
            b.index_levels(levels);
            let mut w = b.build(sink);
            for (k, v) in &entries {
                w.insert(k, v)?;
            }
            w.into_inner().map(drop)
        })?;
    } else {
        let cfg = WCfg { codec: CompressionType::None, block_size: s.block_size, interval, levels, ..WCfg::default_cfg() };
        let mut w = call("WriterBuilder::build", || cfg.build(sink))?;
        for (k, v) in &entries {
            let r = call("Writer::insert", || w.insert(k, v))?;
            supported(&r)?;
        }
        let r = call("Writer::into_inner", || w.into_inner().map(drop))?;
        supported(&r)?;
    }
    let len = world::with(|w| w.files[id].len());
    if len < total as u64 {
        return violation("size", format!("the file has {len} bytes, the values alone have {total}"));
    }
    if s.old_reader {
        let r = guard("0.4.7 reader", || -> Result<(), String> {
            let e = |e: grenad_0_4::Error| format!("failed: {e:?}");
            let r = grenad_0_4::Reader::new(SimFile::open(id)).map_err(e)?;
            if r.len() != entries.len() as u64 {
                return Err(format!("len {} of {}", r.len(), entries.len()));
            }
            let mut c = r.into_cursor().map_err(e)?;
            for i in 0..=entries.len() {
                let got = c.move_on_next().map_err(e)?;
                eq(got, entries.get(i)).map_err(|m| format!("move_on_next {m}"))?;
            }
            for (k, v) in entries.iter().rev().take(small + 4) {
                c.reset();
                let got = c.move_on_key_equal_to(k).map_err(e)?;
                eq(got, Some(&(k.clone(), *v))).map_err(|m| format!("move_on_key_equal_to {m}"))?;
            }
            Ok(())
        });
        return match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(m)) => violation("reader-0.4.7", format!("grenad 0.4.7 reader: {m}")),
            Err(p) => violation("reader-0.4.7", format!("grenad 0.4.7 reader panicked: {}", p.msg)),
        };
    }
    let r = open(id, false)?;
    if r.len() != entries.len() as u64 {
        return violation("len", format!("len {} of {}", r.len(), entries.len()));
    }
    let mut c: Cur = call_ok("Reader::into_cursor", || r.into_cursor())?;
    for i in 0..=entries.len() {
        let got = call("move_on_next", || c.move_on_next().map(|g| eq(g, entries.get(i))))?;
        framing::expect(got, "move_on_next")?;
    }
    call("reset", || c.reset())?;
    // the end of the file is what is behind the 4 gigabytes
    let stop = if s.block_size > total { 0 } else { entries.len() - (small + 1) * 3 };
    for i in (stop..=entries.len()).rev() {
        let want = i.checked_sub(1).map(|i| &entries[i]);
        let got = call("move_on_prev", || c.move_on_prev().map(|g| eq(g, want)))?;
        framing::expect(got, "move_on_prev")?;
    }
    if s.block_size < total {
        for _ in 0..12 {
            let i = entries.len() - 1 - ctx.t.below(small * 2);
            let got = call("move_on_key_equal_to", || {
                c.move_on_key_equal_to(&entries[i].0).map(|g| eq(g, Some(&entries[i])))
            })?;
            framing::expect(got, "move_on_key_equal_to")?;
        }
    }
    Ok(())
}

fn supported(r: &std::io::Result<()>) -> R<()> {
    if world::with(|w| w.unsupported) {
        return inconclusive("the writer used its sink in a way the paged disk does not support");
    }
    match r {
        Ok(()) => Ok(()),
        Err(e) => violation("spurious-error", format!("failed without any failure: {e:?}")),
    }
}

fn eq(got: Option<(&[u8], &[u8])>, want: Option<&(Vec<u8>, &[u8])>) -> Result<(), String> {
    let want = want.map(|(k, v)| (&k[..], *v));
    if got == want {
        return Ok(());
    }
    let show = |e: Option<(&[u8], &[u8])>| match e {
        Some((k, v)) => format!("the entry {:x?} with a value of {} bytes", &k[..k.len().min(8)], v.len()),
        None => "None".into(),
    };
    Err(format!("returned {}, expected {} (or other bytes)", show(got), show(want)))
}

/// An entry whose lengths together do not hold on 32 bits, in the sorter's buffer.
pub fn c17(ctx: &mut Ctx) -> R<()> {
    if !is_large("C17", ctx.index, ctx.tier) {
        return mem::c17(ctx);
    }
    let _room = Room::new();
    let (klen, vlen) = ((1usize << 31) + 777, (1usize << 31) + 99);
    let tile = Tiled::new(klen.max(vlen), 5);
    let Some(tile) = tile.filter(|_| available_memory() > klen + vlen + (6 << 30)) else {
        ctx.probe("large_run_skipped_for_memory");
        return Ok(());
    };
    ctx.probe("entry_over_4_gigabytes");
    ctx.nontrivial = true;
    ctx.describe(|| format!("sorter, small entries around one with lengths ({klen}, {vlen})"));
    world::install(world::IoPlan::canonical());
    // without a reallocation allowed, the entry is spilled apart from what was there before
    let cfg = SCfg { realloc: ctx.index == 0, dump: Some(64 << 20), ..plain_scfg() };
    let mut s = call("SorterBuilder::build", || build_sorter(&cfg, MfKind::Concat, world::SimChunks::default()))?;
    let all: [(&[u8], &[u8]); 4] =
        [(b"a", b"1"), (tile.slice(klen), tile.slice(vlen)), (b"b", b"2"), (b"a", b"3")];
    for (k, v) in all {
        match call("Sorter::insert", || s.insert(k, v))? {
            Ok(()) => {}
            Err(e) => return violation("spurious-error", format!("insert failed: {e:?}")),
        }
    }
    call("drop of the sorter", move || drop(s))
}
