//! C14: lengths of keys and values survive every trip through writers, sinks, sorters, chunk storage,
//! mergers and readers, whoever wrote the file.

use std::io::Read;
use std::num::NonZeroUsize;

use grenad::CompressionType;

use crate::ctx::*;
use crate::fmt;
use crate::gen::*;
use crate::props::files::old_codec;
use crate::props::large;
use crate::props::read::{open, scan_backward, scan_forward, Cur};
use crate::scen::*;
use crate::tape::{mix2, Tape};
use crate::world::{self, IoPlan, Mode};

/// A length of at most `max`: framing boundaries, powers of two, groups of seven bits that are all
/// zeroes or all ones, anything.
fn gen_len(t: &mut Tape, max: usize) -> usize {
    let near = |t: &mut Tape, b: usize| (b + 3).saturating_sub(t.draw(7) as usize);
    let n = match t.weighted(&[6, 3, 4, 3, 2]) {
        0 => {
            let top = [7u32, 14, 21].iter().filter(|b| 1usize << **b <= max).count().max(1);
            let b = 1usize << (7 * (1 + t.below(top)));
            near(t, b)
        }
        1 => {
            let top = usize::BITS - max.leading_zeros();
            let b = 1usize << t.below(top as usize);
            near(t, b)
        }
        2 => {
            let groups = t.range(1, 4);
            let mut n = 0usize;
            for g in 0..groups {
                let x = match t.draw(5) {
                    0 => 0,
                    1 => 0x7f,
                    2 => 1,
                    3 => 0x40,
                    _ => t.draw(128) as usize,
                };
                n |= x << (7 * g);
            }
            while n > max {
                n >>= 7;
            }
            n
        }
        3 => t.range(0, max.min(600)),
        _ => t.range(0, max),
    };
    n.min(max)
}

fn entry(i: usize, klen: usize, vlen: usize, style: u64, seed: u64) -> Kv {
    let mut k = bytes_from(mix2(seed, i as u64), klen, style);
    if let Some(b) = k.first_mut() {
        *b = i as u8 + 1;
    }
    (k, bytes_from(mix2(seed, i as u64 + 1000), vlen, style))
}

/// Every length framed in the file in one to five bytes, every byte accounted for.
fn check_image(what: &str, img: &[u8], entries: &[Kv]) -> R<()> {
    let d = match fmt::decode(img, None) {
        Ok(d) => d,
        Err(m) => return violation("framing", format!("{what}: {m}")),
    };
    let mut n = 0;
    for (i, (_, k, v)) in d.data.iter().flat_map(|b| d.blocks[*b].entries.iter()).enumerate() {
        n += 1;
        let Some((wk, wv)) = entries.get(i) else { continue };
        if (k.len(), v.len()) != (wk.len(), wv.len()) {
            return violation(
                "framing",
                format!(
                    "{what}: entry {i} inserted with lengths ({}, {}) is framed with lengths ({}, {})",
                    wk.len(),
                    wv.len(),
                    k.len(),
                    v.len()
                ),
            );
        }
        if k != wk || v != wv {
            return violation("framing", format!("{what}: the bytes of entry {i} differ"));
        }
    }
    if n != entries.len() {
        return violation("framing", format!("{what}: {n} entries framed, {} inserted", entries.len()));
    }
    Ok(())
}

fn read_back(ctx: &mut Ctx, id: usize, entries: &[Kv]) -> R<()> {
    let shared = ctx.t.chance(1, 4);
    let r = open(id, shared)?;
    let mut c = call_ok("Reader::into_cursor", || r.into_cursor())?;
    scan_forward(&mut c, entries)?;
    call("ReaderCursor::reset", || c.reset())?;
    scan_backward(&mut c, entries)?;
    for _ in 0..ctx.t.range(1, 6) {
        if entries.is_empty() {
            break;
        }
        let i = ctx.t.below(entries.len());
        let q = &entries[i].0;
        let mode = ctx.t.draw(3);
        let got = call("seek", || {
            match mode {
                0 => c.move_on_key_equal_to(q),
                1 => c.move_on_key_greater_than_or_equal_to(q),
                _ => c.move_on_key_lower_than_or_equal_to(q),
            }
            .map(|g| same(g, entries, Some(i)))
        })?;
        match got {
            Ok(Ok(())) => {}
            Ok(Err(m)) => return violation("wrong-result", format!("seek of a key of {} bytes {m}", q.len())),
            Err(e) => return violation("spurious-error", format!("seek failed: {e:?}")),
        }
    }
    Ok(())
}

/// What a sorter or a merger returned, from the log of the play.
fn check_stream(p: &Player, want: &[Kv]) -> R<()> {
    if let Some(s) = p.log.iter().find(|s| !matches!(s.out, StepOut::Ok)) {
        return violation("failed", format!("nothing fails, yet {}", s.show()));
    }
    if let Some((_, img)) = p.outputs.iter().find(|(n, _)| n == "sink") {
        return check_image("merged file", img, want);
    }
    let got: Vec<u64> = p.log.iter().filter(|s| s.label == "MergerIter::next").map(|s| s.hash).collect();
    let exp: Vec<u64> =
        want.iter().map(|(k, v)| hkv(Some((k, v)))).chain(std::iter::once(hkv(None))).collect();
    if got != exp {
        let i = got.iter().zip(&exp).take_while(|(a, b)| a == b).count();
        return violation(
            "stream",
            format!(
                "{} results for {} entries, number {i} is not the entry with lengths {:?}",
                got.len(),
                want.len(),
                want.get(i).map(|(k, v)| (k.len(), v.len()))
            ),
        );
    }
    Ok(())
}

pub fn c14(ctx: &mut Ctx) -> R<()> {
    if let Some(g) = GIANTS.iter().find(|g| g.index == ctx.index && (ctx.tier == Tier::Thorough || g.quick)) {
        return giant_run(ctx, g);
    }
    let (max, n) = match ctx.t.weighted(&[24, 8, 1]) {
        0 => (20_000, 6),
        1 => (300_000, 3),
        _ => ((1 << 21) + 70_000, 2),
    };
    let style = ctx.t.draw(3);
    let seed = ctx.t.draw(1 << 32);
    let mut total = 0;
    let mut entries: Vec<Kv> = ctx.t.list(1, n, |t, i| {
        // keys travel several times: in the blocks, in the index, in the probes
        let klen = if t.chance(1, 2) { gen_len(t, max) } else { gen_len(t, max.min(400)) };
        let mut vlen = if t.chance(3, 4) { gen_len(t, max) } else { gen_len(t, max.min(400)) };
        total += klen + vlen;
        if total > 2 * max + 20_000 {
            vlen = vlen.min(200);
        }
        entry(i, klen, vlen, style, seed)
    });
    entries.sort();
    entries.dedup_by(|a, b| a.0 == b.0);
    let mut cfg = gen_cfg_levels(&mut ctx.t, false);
    if max > 1 << 20 {
        // strong compression of megabytes takes too long
        cfg.level = match cfg.codec {
            CompressionType::Zlib | CompressionType::Zstd => cfg.level.min(1),
            _ => cfg.level,
        };
    }
    let lens: Vec<(usize, usize)> = entries.iter().map(|(k, v)| (k.len(), v.len())).collect();
    for (k, v) in &lens {
        for l in [*k, *v] {
            ctx.probe(match l {
                0..=0x7f => "framed_in_1_byte",
                0x80..=0x3fff => "framed_in_2_bytes",
                0x4000..=0x1f_ffff => "framed_in_3_bytes",
                _ => "framed_in_4_bytes",
            });
            if [0x7f, 0x80, 0x3fff, 0x4000, 0x1f_ffff, 0x20_0000].contains(&l) {
                ctx.probe("length_at_a_framing_boundary");
            }
        }
    }
    let kind = ctx.t.weighted(&[6, 3, 2, 4, 3]);
    let mut plan = IoPlan::draw_benign(&mut ctx.t);
    if max > 100_000 {
        for m in [&mut plan.read_mode, &mut plan.write_mode] {
            if matches!(m, Mode::One | Mode::Random(_)) {
                *m = Mode::Random(3000);
            }
        }
    }
    ctx.nontrivial = lens.iter().any(|(k, v)| *k > 0x7f || *v > 0x7f);
    ctx.describe(|| format!("kind {kind}, {cfg:?}, lengths {lens:?}"));
    world::install(plan);
    match kind {
        0 => {
            let id = write_file(&cfg, &entries)?;
            let img = world::file_bytes(id);
            check_image("written file", &img, &entries)?;
            read_back(ctx, id, &entries)
        }
        1 => {
            let img = fmt::encode(
                2,
                &entries,
                cfg.codec as u8,
                cfg.level,
                cfg.block_size,
                cfg.interval,
                cfg.levels,
            );
            ctx.probe("foreign_file");
            read_back(ctx, world::new_file(img), &entries)
        }
        2 => {
            let img = setup("0.4.7 writer", || -> std::io::Result<Vec<u8>> {
                let mut b = grenad_0_4::WriterBuilder::new();
                b.compression_type(old_codec(cfg.codec));
                b.compression_level(cfg.level);
                b.block_size(cfg.block_size);
                b.index_key_interval(NonZeroUsize::new(cfg.interval).unwrap());
                b.index_levels(cfg.levels);
                let mut w = b.memory();
                for (k, v) in &entries {
                    w.insert(k, v)?;
                }
                w.into_inner()
            })?;
            ctx.probe("file_of_0.4.7");
            read_back(ctx, world::new_file(img), &entries)
        }
        3 => {
            // a sorter: framed in chunks, once more when chunks are merged, and in the output
            let mut scfg = gen_scfg(&mut ctx.t);
            if max > 100_000 {
                scfg.level = scfg.level.map(|_| 1);
                if let Some((b, i)) = scfg.limits {
                    scfg.limits = Some((b.max(4096), i));
                    scfg.dump = scfg.dump.map(|d| d.max(4096));
                }
            }
            let mut ins: Vec<Kv> = Vec::new();
            let mut want: Vec<Kv> = Vec::new();
            for (i, (k, v)) in entries.iter().enumerate() {
                // the value of a key arrives in pieces, the whole is their concatenation
                let parts = if v.len() >= 2 && ctx.t.chance(1, 2) { ctx.t.range(2, 3) } else { 1 };
                let mut at = 0;
                for p in 0..parts {
                    let end = if p + 1 == parts { v.len() } else { at + ctx.t.range(0, v.len() - at) };
                    ins.push((k.clone(), v[at..end].to_vec()));
                    at = end;
                }
                let _ = i;
                want.push((k.clone(), v.clone()));
            }
            if !scfg.unstable || ins.len() == want.len() {
                // a rotation keeps the order of the pieces of every key but one; only whole values move
                if ins.len() == want.len() {
                    let r = ctx.t.below(ins.len().max(1));
                    ins.rotate_left(r);
                }
            } else {
                ins = want.clone();
            }
            let out = match ctx.t.draw(3) {
                0 => SortOut::Stream,
                1 => SortOut::Writer(cfg),
                _ => SortOut::Cursors,
            };
            ctx.describe(|| format!("sorter {scfg:?}, {} inserts, out {out:?}", ins.len()));
            let scen = Scen::Sort { cfg: scfg, mf: MfKind::Concat, ins, out };
            let p = play(&scen);
            ctx.probe("through_a_sorter");
            check_stream(&p, &want)
        }
        _ => {
            // a merger: values of one key come from up to three files
            let files = ctx.t.range(1, 3);
            let mut parts: Vec<Vec<Kv>> = vec![Vec::new(); files];
            for (k, v) in &entries {
                let mut at = 0;
                let last = ctx.t.below(files);
                for (f, part) in parts.iter_mut().enumerate().take(last + 1) {
                    let end = if f == last { v.len() } else { at + ctx.t.range(0, v.len() - at) };
                    part.push((k.clone(), v[at..end].to_vec()));
                    at = end;
                }
            }
            let images = parts
                .iter()
                .map(|p| fmt::encode(2, p, cfg.codec as u8, cfg.level, cfg.block_size, cfg.interval, cfg.levels))
                .collect();
            let out = if ctx.t.chance(1, 2) { Some(cfg) } else { None };
            let shared = ctx.t.chance(1, 4);
            let p = play(&Scen::Merge { images, mf: MfKind::Concat, out, shared });
            ctx.probe("through_a_merger");
            check_stream(&p, &entries)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// lengths of hundreds of megabytes and of gigabytes, in a few runs

#[derive(Clone, Copy, PartialEq, Eq)]
enum Trip {
    /// writer, then reader
    File,
    /// sorter, chunk, merge, stream
    Sorter,
}

struct Giant {
    index: u64,
    quick: bool,
    klen: usize,
    vlen: usize,
    codec: CompressionType,
    trip: Trip,
}

const fn g(index: u64, quick: bool, klen: usize, vlen: usize, codec: CompressionType, trip: Trip) -> Giant {
    Giant { index, quick, klen, vlen, codec, trip }
}

/// All on two of the eight workers (one of each build), so that at most two run at a time.
const GIANTS: &[Giant] = &[
    g(0, true, 5, 1 << 28, CompressionType::None, Trip::File),
    g(1, true, 5, u32::MAX as usize, CompressionType::Zstd, Trip::File),
    g(8, true, 5, (1 << 28) - 1, CompressionType::None, Trip::Sorter),
    g(9, true, (1 << 28) + 1, 300, CompressionType::Snappy, Trip::File),
    g(16, true, (1 << 28) - 1, 129, CompressionType::Lz4, Trip::File),
    g(17, true, 3, (1 << 31) + 5, CompressionType::Lz4, Trip::File),
    g(24, false, 7, (1 << 29) - 1, CompressionType::None, Trip::File),
    g(25, false, 7, (1 << 31) - 1, CompressionType::Snappy, Trip::File),
    g(32, false, 1 << 28, 1 << 14, CompressionType::None, Trip::Sorter),
    g(33, false, 2, 1 << 31, CompressionType::Zstd, Trip::Sorter),
    g(40, false, 1 << 30, (1 << 21) - 1, CompressionType::Zstd, Trip::File),
    g(41, false, 2, (1 << 32) - 128, CompressionType::Snappy, Trip::File),
    g(48, false, 2, 0xf7ff_ffff, CompressionType::Zlib, Trip::File),
    g(49, false, (1 << 31) + 127, 0, CompressionType::Zstd, Trip::File),
    g(56, false, 127, 0x1234_5678, CompressionType::None, Trip::File),
    g(57, false, 128, 3 << 30, CompressionType::Zstd, Trip::Sorter),
];

/// Virtual memory of any size over a small file: a slice that costs nothing.
pub struct Tiled {
    ptr: *mut u8,
    len: usize,
}

const TILE: usize = 256 << 10;

impl Tiled {
    pub fn new(len: usize, seed: u64) -> Option<Tiled> {
        let mut tile = Vec::with_capacity(TILE);
        while tile.len() < TILE {
            let b = mix2(seed, tile.len() as u64) as u8;
            tile.extend(std::iter::repeat_n(b, 64));
        }
        let n = len.div_ceil(TILE).max(1);
        // SAFETY: plain system calls; the mapping is reserved first and then covered tile by tile.
        unsafe {
            let fd = libc::memfd_create(c"tile".as_ptr(), 0);
            if fd < 0 {
                return None;
            }
            let done = libc::write(fd, tile.as_ptr().cast(), TILE) == TILE as isize;
            let base = libc::mmap(
                std::ptr::null_mut(),
                n * TILE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            let mut ok = done && base != libc::MAP_FAILED;
            for i in 0..n {
                if !ok {
                    break;
                }
                let p = libc::mmap(
                    base.cast::<u8>().add(i * TILE).cast(),
                    TILE,
                    libc::PROT_READ,
                    libc::MAP_SHARED | libc::MAP_FIXED,
                    fd,
                    0,
                );
                ok = p != libc::MAP_FAILED;
            }
            libc::close(fd);
            if base != libc::MAP_FAILED {
                let t = Tiled { ptr: base.cast(), len: n * TILE };
                return ok.then_some(t);
            }
            None
        }
    }
    pub fn slice(&self, len: usize) -> &[u8] {
        // SAFETY: mapped and readable for its whole length.
        unsafe { std::slice::from_raw_parts(self.ptr, len) }
    }
}

impl Drop for Tiled {
    fn drop(&mut self) {
        // SAFETY: mapped by new.
        unsafe { libc::munmap(self.ptr.cast(), self.len) };
    }
}

pub fn available_memory() -> usize {
    let s = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    s.lines()
        .find_map(|l| l.strip_prefix("MemAvailable:"))
        .and_then(|l| l.trim().trim_end_matches("kB").trim().parse::<usize>().ok())
        .map_or(0, |kb| kb << 10)
}

pub fn leb(mut x: usize) -> Vec<u8> {
    let mut v = Vec::new();
    while x >= 0x80 {
        v.push(x as u8 | 0x80);
        x >>= 7;
    }
    v.push(x as u8);
    v
}

pub fn is_giant(index: u64, tier: Tier) -> bool {
    GIANTS.iter().any(|g| g.index == index && (tier == Tier::Thorough || g.quick))
}

fn giant_run(ctx: &mut Ctx, g: &Giant) -> R<()> {
    let _room = large::Room::new();
    let size = g.klen + g.vlen;
    // generous: block under construction, its copy being compressed or stored, the block read back
    let copies = match (g.trip, g.klen > g.vlen) {
        (Trip::File, false) => 3,
        (Trip::File, true) => 7,
        (Trip::Sorter, false) => 5,
        (Trip::Sorter, true) => 9,
    };
    if available_memory() < size * copies + (6 << 30) {
        ctx.probe("giant_skipped_for_memory");
        return Ok(());
    }
    let Some(tile) = Tiled::new(g.klen.max(g.vlen), 0x9e37 + g.index) else {
        ctx.probe("giant_skipped_for_memory");
        return Ok(());
    };
    let (key, val) = (tile.slice(g.klen), tile.slice(g.vlen));
    ctx.probe(if size >= 1 << 31 { "length_of_2_to_4_gigabytes" } else { "length_of_256_megabytes_or_more" });
    ctx.nontrivial = true;
    // the small entries around it: below and above whatever the tile starts with
    let (lo, hi): (&[u8], &[u8]) = (b"", &[0xff; 9]);
    if key.starts_with(&[0xff; 9]) {
        return inconclusive("unlucky tile");
    }
    let all: [(&[u8], &[u8]); 3] = [(lo, b"first"), (key, val), (hi, &[])];
    let cfg = WCfg { codec: g.codec, level: 1, interval: 2, levels: 1, ..WCfg::default_cfg() };
    ctx.describe(|| format!("{cfg:?}, a key of {} bytes with a value of {} bytes", g.klen, g.vlen));
    let eq = |got: Option<(&[u8], &[u8])>, want: Option<(&[u8], &[u8])>| -> Result<(), String> {
        if got == want {
            return Ok(());
        }
        let len = |e: Option<(&[u8], &[u8])>| e.map(|(k, v)| (k.len(), v.len()));
        Err(format!("returned an entry with lengths {:?}, expected {:?} (or other bytes)", len(got), len(want)))
    };
    match g.trip {
        Trip::File => {
            let sink = world::SimFile::create();
            let id = sink.id;
            let mut w = call("WriterBuilder::build", || cfg.build(sink))?;
            for (k, v) in all {
                call_ok("Writer::insert", || w.insert(k, v))?;
            }
            drop(call_ok("Writer::into_inner", || w.into_inner())?);
            // how the lengths are framed
            let want: Vec<u8> =
                [&leb(0)[..], &leb(5), b"first", &leb(g.klen), &leb(g.vlen)].concat();
            let head = world::with(|w| head_of_first_block(g.codec, &w.files[id].data, want.len()));
            if head.as_deref() != Ok(&want[..]) {
                return violation(
                    "framing",
                    format!("the first block starts with {head:x?}, the framing of the entries is {want:x?}"),
                );
            }
            let r = open(id, false)?;
            let mut c: Cur = call_ok("Reader::into_cursor", || r.into_cursor())?;
            for i in 0..4 {
                let got = call("move_on_next", || c.move_on_next().map(|x| eq(x, all.get(i).copied())))?;
                expect(got, "move_on_next")?;
            }
            if size < 1 << 30 {
                let got = call("move_on_key_equal_to", || c.move_on_key_equal_to(key).map(|x| eq(x, Some(all[1]))))?;
                expect(got, "move_on_key_equal_to")?;
                let got = call("move_on_prev", || c.move_on_prev().map(|x| eq(x, Some(all[0]))))?;
                expect(got, "move_on_prev")?;
            }
        }
        Trip::Sorter => {
            let scfg = SCfg {
                limits: None,
                dump: Some(20 << 20),
                codec: Some(g.codec),
                level: Some(1),
                ..plain_scfg()
            };
            let cc = world::SimChunks::default();
            let mut s = call("SorterBuilder::build", || build_sorter(&scfg, MfKind::Concat, cc))?;
            for i in [1, 2, 0] {
                let (k, v) = all[i];
                match call("Sorter::insert", || s.insert(k, v))? {
                    Ok(()) => {}
                    Err(e) => return violation("spurious-error", format!("insert failed: {e:?}")),
                }
            }
            let it = call("Sorter::into_stream_merger_iter", || s.into_stream_merger_iter())?;
            let mut it = match it {
                Ok(it) => it,
                Err(e) => return violation("spurious-error", format!("into_stream_merger_iter failed: {e:?}")),
            };
            for i in 0..4 {
                let got = call("MergerIter::next", || it.next().map(|x| eq(x, all.get(i).copied())))?;
                match got {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => return violation("wrong-result", format!("MergerIter::next {m}")),
                    Err(e) => return violation("spurious-error", format!("MergerIter::next failed: {e:?}")),
                }
            }
        }
    }
    Ok(())
}

pub fn expect(got: Result<Result<(), String>, grenad::Error>, what: &str) -> R<()> {
    match got {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => violation("wrong-result", format!("{what} {m}")),
        Err(e) => violation("spurious-error", format!("{what} failed: {e:?}")),
    }
}

pub fn plain_scfg() -> SCfg {
    SCfg {
        limits: None,
        dump: None,
        realloc: true,
        max_chunks: None,
        codec: None,
        level: None,
        block_size: None,
        interval: None,
        levels: None,
        unstable: false,
        par: false,
        par_seed: 0,
        threads: 1,
        storage: Storage::Sim,
        creator_first: true,
        keep: false,
        err_style: 0,
    }
}

/// The first `n` decompressed bytes of the first block of a file.
fn head_of_first_block(codec: CompressionType, img: &[u8], n: usize) -> Result<Vec<u8>, String> {
    if img.len() < 8 {
        return Err("empty file".into());
    }
    let len = u64::from_be_bytes(img[..8].try_into().unwrap()) as usize;
    let data = img.get(8..8usize.saturating_add(len)).ok_or("the first block runs over the file")?;
    let mut out = Vec::new();
    let r: Box<dyn Read> = match codec {
        CompressionType::None => Box::new(data),
        CompressionType::Zlib => Box::new(flate2::read::ZlibDecoder::new(data)),
        CompressionType::Lz4 => Box::new(lz4_flex::frame::FrameDecoder::new(data)),
        CompressionType::Zstd => Box::new(zstd::stream::read::Decoder::new(data).map_err(|e| e.to_string())?),
        CompressionType::Snappy => Box::new(snap::read::FrameDecoder::new(data)),
        _ => return Err("not used here".into()),
    };
    r.take(n as u64).read_to_end(&mut out).map_err(|e| e.to_string())?;
    Ok(out)
}
