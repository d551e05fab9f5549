//! Configurations, key/value populations, probes.

use std::num::NonZeroUsize;

use grenad::CompressionType;

use crate::ctx::*;
use crate::fmt;
use crate::tape::{mix2, Rng, Tape};
use crate::world::{self, SimFile};

pub type Kv = (Vec<u8>, Vec<u8>);

pub const CODECS: [CompressionType; 6] = [
    CompressionType::None,
    CompressionType::Snappy,
    CompressionType::SnappyPre05,
    CompressionType::Zlib,
    CompressionType::Lz4,
    CompressionType::Zstd,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WCfg {
    pub codec: CompressionType,
    pub level: u32,
    pub block_size: usize,
    pub interval: usize,
    pub levels: u8,
    /// do not call the setters whose value is the default
    pub lazy: bool,
}

impl WCfg {
    pub fn default_cfg() -> WCfg {
        WCfg {
            codec: CompressionType::None,
            level: 0,
            block_size: 8192,
            interval: 8,
            levels: 0,
            lazy: true,
        }
    }
    /// Nothing differs from the defaults and the setters are not called.
    fn plain(&self) -> bool {
        *self == WCfg::default_cfg()
    }
    pub fn build<W: std::io::Write>(&self, sink: W) -> grenad::Writer<W> {
        match self.plain() {
            true => grenad::Writer::new(sink),
            false => self.builder().build(sink),
        }
    }
    pub fn memory(&self) -> grenad::Writer<Vec<u8>> {
        match self.plain() {
            true => grenad::Writer::memory(),
            false => self.builder().memory(),
        }
    }
    fn builder(&self) -> grenad::WriterBuilder {
        let d = WCfg::default_cfg();
        let mut b = match self.block_size % 3 {
            0 => grenad::WriterBuilder::default(),
            1 => grenad::WriterBuilder::new(),
            _ => grenad::Writer::builder(),
        };
        if !self.lazy && (self.block_size ^ self.interval) & 1 == 1 {
            // the last value counts
            b.compression_type(CompressionType::Lz4).compression_level(3).block_size(3000);
            b.index_key_interval(NonZeroUsize::new(5).unwrap()).index_levels(3);
        }
        if !self.lazy || self.codec != d.codec {
            b.compression_type(self.codec);
        }
        if !self.lazy || self.level != d.level {
            b.compression_level(self.level);
        }
        if !self.lazy || self.block_size != d.block_size {
            b.block_size(self.block_size);
        }
        if !self.lazy || self.interval != d.interval {
            b.index_key_interval(NonZeroUsize::new(self.interval).unwrap());
        }
        if !self.lazy || self.levels != d.levels {
            b.index_levels(self.levels);
        }
        b
    }
}

pub fn gen_codec(t: &mut Tape) -> CompressionType {
    CODECS[t.weighted(&[8, 3, 2, 2, 2, 2])]
}

pub fn gen_level(t: &mut Tape, codec: CompressionType) -> u32 {
    match codec {
        CompressionType::Zlib => t.draw(10) as u32,
        CompressionType::Zstd => {
            let i = t.weighted(&[6, 3, 1]);
            match i {
                0 => t.draw(4) as u32,
                1 => t.draw(10) as u32,
                _ => (-(t.draw(7) as i32)) as u32,
            }
        }
        _ => t.pick(&[0, 1, 9, 100, u32::MAX]),
    }
}

pub fn gen_cfg(t: &mut Tape) -> WCfg {
    gen_cfg_levels(t, true)
}

pub fn gen_cfg_levels(t: &mut Tape, extreme: bool) -> WCfg {
    if t.chance(1, 40) {
        return WCfg::default_cfg();
    }
    let codec = gen_codec(t);
    let level = if codec != CompressionType::None || t.chance(1, 4) { gen_level(t, codec) } else { 0 };
    let block_size = match t.weighted(&[10, 4, 3, 2, 1]) {
        0 => t.pick(&[1024, 0, 1023, 1, 512]),
        1 => t.range(1024, 2000),
        2 => t.pick(&[2048, 1025, 4096, 8192]),
        3 => 8192,
        _ => t.pick(&[65536, 1 << 20, usize::MAX, isize::MAX as usize, 1 << 32, (1 << 32) + 1500, 65537 * 8]),
    };
    let interval = match t.weighted(&[6, 4, 2, 1]) {
        0 => t.pick(&[8, 1, 2, 3, 4]),
        1 => t.range(1, 20),
        2 => t.pick(&[64, 1000]),
        _ => t.pick(&[usize::MAX, 256, 65536, 65537, 1 << 32, (1 << 32) + 3, 257]),
    };
    let levels = match t.weighted(&[8, 8, 2, if extreme { 1 } else { 0 }]) {
        0 => t.pick(&[0u8, 1, 2]),
        1 => t.range(2, 4) as u8,
        2 => t.range(0, 7) as u8,
        _ => {
            if t.chance(1, 8) {
                t.pick(&[254u8, 255, 128])
            } else {
                t.range(8, 40) as u8
            }
        }
    };
    WCfg { codec, level, block_size, interval, levels, lazy: t.chance(1, 2) }
}

#[derive(Clone, Copy)]
pub struct DataOpts {
    /// most entries of a parametric population
    pub max_entries: usize,
    /// rough bound on the total bytes
    pub max_bytes: usize,
    /// allow entries larger than a block
    pub big: bool,
}

impl Default for DataOpts {
    fn default() -> Self {
        DataOpts { max_entries: 600, max_bytes: 200_000, big: true }
    }
}

pub fn bytes_from(seed: u64, len: usize, style: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    match style % 3 {
        0 => {
            // compressible, position dependent
            let b = (seed & 0xff) as u8;
            for i in 0..len {
                v.push(b.wrapping_add((i / 7) as u8));
            }
        }
        1 => {
            let mut r = Rng(seed);
            while v.len() < len {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(len);
        }
        _ => {
            let pat = seed.to_be_bytes();
            while v.len() < len {
                let n = (len - v.len()).min(8);
                v.extend_from_slice(&pat[..n]);
            }
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub struct ValGen {
    style: usize,
    a: usize,
    content: u64,
    seed: u64,
}

impl ValGen {
    pub fn draw(t: &mut Tape, o: &DataOpts) -> ValGen {
        let style = t.weighted(&[4, 4, 3, if o.big { 2 } else { 0 }, 2]);
        let a = match style {
            0 => t.pick(&[4, 0, 1, 8, 100]),
            1 => t.range(0, 60),
            2 => t.range(0, 700),
            3 => t.range(500, 6000),
            _ => t.pick(&[127, 128, 129, 126]),
        };
        ValGen { style, a, content: t.draw(3), seed: t.draw(1 << 32) }
    }
    pub fn value(&self, i: u64) -> Vec<u8> {
        let h = mix2(self.seed, i);
        let len = match self.style {
            0 | 4 => self.a,
            1 | 2 => (h % (self.a as u64 + 1)) as usize,
            _ => {
                if h & 7 == 0 {
                    self.a + (h >> 8) as usize % (self.a + 1)
                } else {
                    (h >> 8) as usize % 40
                }
            }
        };
        let mut v = bytes_from(h, len, self.content);
        // make values distinguishable whenever there is room
        if len >= 4 {
            v[..4].copy_from_slice(&(i as u32).to_be_bytes());
        }
        v
    }
}

/// A key over a tiny alphabet: dense prefix relations.
pub fn tiny_key(t: &mut Tape) -> Vec<u8> {
    let n = t.weighted(&[2, 6, 6, 5, 3, 2, 1]);
    let alphabet = [b'a', b'b', 0u8, 0xff, 0xfe, 0x7f, 0x80, 1];
    (0..n).map(|_| alphabet[t.weighted(&[5, 4, 3, 3, 1, 1, 1, 1])]).collect()
}

/// Sorted, distinct keys.
pub fn gen_entries(t: &mut Tape, o: DataOpts) -> Vec<Kv> {
    let style = t.weighted(&[5, 8, 3, 2, 1]);
    let vg;
    let mut keys: Vec<Vec<u8>> = match style {
        0 => {
            vg = ValGen::draw(t, &o);
            t.list(0, 40, |t, _| {
                let mut k = tiny_key(t);
                if t.chance(1, 12) {
                    let n = t.pick(&[1usize, 10, 100, 127, 128, 300, 1100]);
                    let b = t.pick(&[b'a', 0xffu8, 0]);
                    k.extend(std::iter::repeat(b).take(n));
                }
                k
            })
        }
        1 | 2 => {
            // counters behind a common prefix, possibly long: few entries per (index) block
            let plen = match t.weighted(&[4, 4, 3, 1]) {
                0 => 0,
                1 => t.range(0, 40),
                2 => t.range(100, 520),
                _ => t.range(0, 1200),
            };
            let fill = t.pick(&[b'p', 0u8, 0xff]);
            let width = t.pick(&[4usize, 2, 8, 1]);
            let stride = t.pick(&[1u64, 3, 2, 255, 256, 65537]);
            let start = t.pick(&[0u64, 250, 65530, 1 << 24]);
            let nested = t.chance(1, 4);
            let varlen = t.chance(1, 4);
            vg = ValGen::draw(t, &o);
            let per = plen + width + 40;
            let hi = o.max_entries.min(o.max_bytes / per).max(2);
            let lo_hi = if t.chance(1, 4) { hi.min(12) } else { hi };
            let n = t.range(0, lo_hi);
            let mut v = Vec::with_capacity(n);
            for i in 0..n as u64 {
                let x = start + i * stride;
                let full = x.to_be_bytes();
                let mut k = vec![fill; plen];
                k.extend_from_slice(&full[8 - width..]);
                if varlen {
                    k.extend(std::iter::repeat(b'v').take((mix2(i, 7) % 9) as usize));
                }
                if nested && i % 3 == 0 {
                    let mut k2 = k.clone();
                    k2.push(0);
                    v.push(k2.clone());
                    if i % 2 == 0 {
                        k2.push(0xff);
                        v.push(k2);
                    }
                }
                v.push(k);
            }
            v
        }
        3 => {
            vg = ValGen::draw(t, &o);
            let n = t.range(0, o.max_entries.min(o.max_bytes / 60).max(2));
            let seed = t.draw(1 << 32);
            let maxlen = t.pick(&[3u64, 8, 40, 200]);
            let mask = t.pick(&[0xffu8, 0x03, 0x81, 0xc0]);
            (0..n as u64)
                .map(|i| {
                    let mut r = Rng(mix2(seed, i));
                    let len = r.below(maxlen + 1) as usize;
                    (0..len).map(|_| (r.next() as u8) & mask).collect()
                })
                .collect()
        }
        _ => {
            // framing boundaries
            vg = ValGen::draw(t, &o);
            t.list(0, 4, |t, i| {
                let lens: &[usize] = if o.big {
                    &[127, 128, 16383, 16384, 0, 1, 129, 126, 16385, 70000]
                } else {
                    &[127, 128, 0, 1, 129, 126]
                };
                let n = t.pick(lens);
                let mut k = vec![b'k'; n];
                if n > 0 {
                    k[n - 1] = i as u8;
                }
                k
            })
        }
    };
    keys.sort_unstable();
    keys.dedup();
    let mut total = 0usize;
    let mut out = Vec::with_capacity(keys.len());
    for (i, k) in keys.into_iter().enumerate() {
        let v = vg.value(i as u64);
        total += k.len() + v.len() + 10;
        if total > o.max_bytes && i > 3 {
            break;
        }
        out.push((k, v));
    }
    if o.big && !out.is_empty() && t.chance(1, 24) {
        // one value on a framing boundary or well over every block
        let i = t.below(out.len());
        let n = t.pick(&[127usize, 128, 16383, 16384, 20000, 70000, 2097151, 2097152]);
        if n < 1_000_000 || o.max_bytes >= 200_000 && t.chance(1, 6) {
            out[i].1 = bytes_from(i as u64, n, 0);
        }
    }
    if o.big && o.max_bytes >= 100_000 && !out.is_empty() {
        giant(t, &mut out, 2500);
    }
    out
}

/// With a probability of one in `one_in`: one value (or key) of many megabytes.
pub fn giant(t: &mut Tape, entries: &mut [Kv], one_in: u64) -> bool {
    if !t.chance(1, one_in) {
        return false;
    }
    let n = t.pick(&[(1usize << 24) + 3, 4 << 20, (1 << 21) + 1, (1 << 23) - 1, (1 << 24) - 1, 17 << 20, 5_000_001]);
    let i = t.below(entries.len());
    let style = t.draw(3);
    let big = bytes_from(t.draw(1 << 32), n, style);
    if i + 1 == entries.len() && t.chance(1, 3) {
        // the last key may grow without losing its place
        entries[i].0.extend_from_slice(&big);
    } else {
        entries[i].1 = big;
    }
    true
}

/// With a probability of one in `one_in`: a population of thousands of tiny entries, in few or many
/// blocks (offset tables and entry counts on both sides of 2^8, 2^12, 2^16).
pub fn widen(t: &mut Tape, cfg: &mut WCfg, entries: &mut Vec<Kv>, one_in: u64, max: usize) -> bool {
    if !t.chance(1, one_in) {
        return false;
    }
    let n = match t.weighted(&[6, 3, 1]) {
        0 => t.pick(&[300usize, 1030, 2049, 4097, 5000]),
        1 => t.pick(&[4096usize, 8193, 9001, 16_385, 20_000]),
        _ => t.pick(&[65_537usize, 66_000, 70_001, 131_073]),
    }
    .min(max);
    cfg.block_size = t.pick(&[1 << 20, 1024, 8192, 65_536, usize::MAX, 3_000_000]);
    cfg.interval = t.pick(&[1, 8, 2, 255, 256, 65_536, usize::MAX]);
    cfg.levels = cfg.levels.min(6);
    if cfg.codec == CompressionType::Zlib || cfg.codec == CompressionType::Zstd {
        // small blocks at high levels take too long
        cfg.level = cfg.level.min(3);
    }
    let vlen = t.pick(&[0usize, 1, 4, 9]);
    // a step back walks from the closest recorded offset: keep backward scans affordable
    let in_block = n.min(cfg.block_size.max(1024) / (vlen + 5) + 1);
    if n * cfg.interval.min(in_block) > 18_000_000 {
        cfg.interval = 1 + cfg.interval % 17;
    }
    let stride = t.pick(&[1u32, 2, 255]);
    let off = t.draw(1 << 16) as u32;
    let short = t.chance(1, 2);
    *entries = (0..n as u32)
        .map(|i| {
            let x = off + i * stride;
            let b = x.to_be_bytes();
            let k = if short && off as u64 + n as u64 * stride as u64 <= 1 << 24 { b[1..].to_vec() } else { b.to_vec() };
            (k, i.to_be_bytes().iter().cycle().take(vlen).copied().collect())
        })
        .collect();
    true
}

pub fn long_prefix(t: &mut Tape) -> Vec<u8> {
    let l = match t.draw(3) {
        0 => t.pick(&[65_536usize, 65_535, 65_534, 65_537, 70_000, 131_072]),
        1 => t.pick(&[255usize, 256, 257, 1024, 4096, 8192]),
        _ => t.pick(&[127usize, 128, 16_383, 16_384, 32_767, 32_768]),
    };
    let (seed, style) = (t.seed(), t.draw(3));
    if t.chance(1, 3) { vec![0xff; l] } else { bytes_from(seed, l, style) }
}

/// With a probability of one in `one_in`: few keys that differ only behind a long common prefix.
pub fn lengthen(t: &mut Tape, entries: &mut Vec<Kv>, one_in: u64) -> bool {
    if entries.is_empty() || !t.chance(1, one_in) {
        return false;
    }
    let p = long_prefix(t);
    let n = (800_000 / p.len()).min(40);
    if entries.len() > n {
        let at = t.below(entries.len() - n + 1);
        entries.drain(..at);
        entries.truncate(n);
    }
    for (k, v) in entries.iter_mut() {
        k.splice(..0, p.iter().copied());
        v.truncate(2000);
    }
    true
}

/// With a probability of one in `one_in`: makes the finished file end exactly on (or one byte next
/// to) a multiple of a power of two, by stretching the last value.
pub fn aim_length(t: &mut Tape, cfg: &WCfg, entries: &mut [Kv], one_in: u64) -> bool {
    if entries.is_empty() || cfg.codec != CompressionType::None || total_bytes(entries) > 60_000 {
        return false;
    }
    if !t.chance(1, one_in) {
        return false;
    }
    let m = t.pick(&[4096usize, 512, 1024, 8192, 64, 32_768]);
    let off = t.pick(&[0usize, 0, 0, 1, m - 1, 22, m - 22]);
    for _ in 0..6 {
        let len = fmt::encode(2, entries, 0, 0, cfg.block_size, cfg.interval, cfg.levels).len();
        let delta = (m + off - len % m) % m;
        if delta == 0 {
            return true;
        }
        let v = &mut entries.last_mut().unwrap().1;
        let n = v.len();
        if n >= m {
            v.truncate(n % m);
        }
        v.resize(v.len() + delta, b'=');
    }
    false
}

/// Is the one-byte mode affordable for this amount of data?
pub fn total_bytes(e: &[Kv]) -> usize {
    e.iter().map(|(k, v)| k.len() + v.len() + 4).sum()
}

pub fn describe_entries(e: &[Kv]) -> String {
    let mut s = format!("{} entries, {} bytes", e.len(), total_bytes(e));
    for (k, v) in e.iter().take(6) {
        s.push_str(&format!(" {}={}", show(k), show(v)));
    }
    if e.len() > 6 {
        s.push_str(" ...");
    }
    s
}

/// Writes the entries with the current writer into a new simulated file, as a step that must work.
pub fn write_file(cfg: &WCfg, entries: &[Kv]) -> R<usize> {
    let sink = SimFile::create();
    let id = sink.id;
    let mut w = call("WriterBuilder::build", || cfg.build(sink))?;
    for (k, v) in entries {
        call_ok("Writer::insert", || w.insert(k, v))?;
    }
    let sink = call_ok("Writer::into_inner", || w.into_inner())?;
    drop(sink);
    Ok(id)
}

/// A file for reader-side properties: usually written by the current writer, sometimes by the
/// independent encoder (always when the writer refuses).
pub fn make_file(ctx: &mut Ctx, cfg: &WCfg, entries: &[Kv]) -> R<usize> {
    let by_encoder = ctx.t.chance(1, 4);
    if !by_encoder {
        match write_file(cfg, entries) {
            Ok(id) => {
                // a writer that does not write what it was given is not the subject here
                let img = world::file_bytes(id);
                let good = match fmt::decode(&img, None) {
                    Ok(d) => {
                        let mut n = 0;
                        let same = d
                            .data
                            .iter()
                            .flat_map(|b| d.blocks[*b].entries.iter())
                            .inspect(|_| n += 1)
                            .zip(entries)
                            .all(|((_, k, v), (wk, wv))| k == wk && v == wv);
                        same && n == entries.len() as u64 && d.trailer.count == n
                    }
                    Err(_) => false,
                };
                if good {
                    ctx.probe("file_by_writer");
                    return Ok(id);
                }
                ctx.probe("writer_unusable");
            }
            Err(_) => ctx.probe("writer_unusable"),
        }
    }
    ctx.probe("file_by_independent_encoder");
    let img = fmt::encode(
        2,
        entries,
        cfg.codec as u8,
        cfg.level,
        cfg.block_size,
        cfg.interval,
        cfg.levels,
    );
    Ok(world::new_file(img))
}

/// A position in a file that does not hold on fewer bits, or none.
pub fn gen_base(t: &mut Tape, len: usize) -> u64 {
    if !t.chance(1, 12) {
        return 0;
    }
    let at = 1u64 << t.pick(&[32u32, 31, 33, 40, 48, 53, 62, 16, 24]);
    match t.draw(3) {
        0 => at,
        // some block crosses the border
        1 => at - t.draw(len as u64 + 1).min(at),
        _ => at + t.draw(100_000),
    }
}

/// Like `make_file`; sometimes all the blocks lie far behind the start of the file, which begins with a hole.
pub fn make_far_file(ctx: &mut Ctx, cfg: &WCfg, entries: &[Kv]) -> R<usize> {
    let base = gen_base(&mut ctx.t, total_bytes(entries));
    if base == 0 {
        return make_file(ctx, cfg, entries);
    }
    ctx.probe("far_blocks");
    let img = fmt::encode_at(
        base,
        2,
        entries,
        cfg.codec as u8,
        cfg.level,
        cfg.block_size,
        cfg.interval,
        cfg.levels,
    );
    Ok(world::new_file_at(base, img))
}

pub fn reader_handle(id: usize, shared: bool) -> SimFile {
    if shared {
        SimFile::open_shared(id)
    } else {
        SimFile::open(id)
    }
}

/// A probe key: one of the equivalence classes relative to the stored keys.
pub fn gen_probe(t: &mut Tape, entries: &[Kv]) -> Vec<u8> {
    if entries.is_empty() || t.chance(1, 12) {
        return match t.draw(3) {
            0 => Vec::new(),
            1 => tiny_key(t),
            _ => vec![0xff; t.range(1, 5)],
        };
    }
    let i = match t.weighted(&[6, 1, 1]) {
        0 => t.below(entries.len()),
        1 => 0,
        _ => entries.len() - 1,
    };
    let class = t.draw(9);
    probe_of(&entries[i].0, class, || t.draw(1 << 16))
}

pub fn probe_of(k: &[u8], class: u64, mut rnd: impl FnMut() -> u64) -> Vec<u8> {
    let mut q = k.to_vec();
    match class {
        0 => {}
        1 => q.push(0),
        2 => {
            q.pop();
        }
        3 => {
            // just below, same length
            for b in q.iter_mut().rev() {
                if *b == 0 {
                    *b = 0xff;
                } else {
                    *b -= 1;
                    break;
                }
            }
        }
        4 => {
            // just above, same length
            for b in q.iter_mut().rev() {
                if *b == 0xff {
                    *b = 0;
                } else {
                    *b += 1;
                    break;
                }
            }
        }
        5 => q.push(0xff),
        6 => {
            let n = rnd() as usize % (q.len() + 1);
            q.truncate(n);
        }
        7 => {
            // predecessor with a long tail: between the previous key and this one
            if let Some(b) = q.last_mut() {
                if *b > 0 {
                    *b -= 1;
                    q.extend_from_slice(&[0xff; 6]);
                } else {
                    q.pop();
                }
            }
        }
        _ => {
            if !q.is_empty() {
                let n = rnd() as usize % q.len();
                q[n] = rnd() as u8;
            }
        }
    }
    q
}

/// The reference model of a file.
pub fn ceil(entries: &[Kv], q: &[u8]) -> Option<usize> {
    let i = entries.partition_point(|(k, _)| k.as_slice() < q);
    if i < entries.len() {
        Some(i)
    } else {
        None
    }
}
pub fn floor(entries: &[Kv], q: &[u8]) -> Option<usize> {
    let i = entries.partition_point(|(k, _)| k.as_slice() <= q);
    i.checked_sub(1)
}
pub fn exact(entries: &[Kv], q: &[u8]) -> Option<usize> {
    entries.binary_search_by(|(k, _)| k.as_slice().cmp(q)).ok()
}

pub fn own(e: Option<(&[u8], &[u8])>) -> Option<Kv> {
    e.map(|(k, v)| (k.to_vec(), v.to_vec()))
}

/// Compares a returned entry with the model without copying.
pub fn same(got: Option<(&[u8], &[u8])>, entries: &[Kv], want: Option<usize>) -> Result<(), String> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some((k, v)), Some(i)) if entries[i].0 == k && entries[i].1 == v => Ok(()),
        (g, w) => Err(format!(
            "returned {}, expected {}",
            show_kv(&own(g)),
            match w {
                None => "None".to_string(),
                Some(i) => format!("entry {i} {}", show_kv(&Some(entries[i].clone()))),
            }
        )),
    }
}
