//! An independent implementation of the file format: strict decoder, encoder, trailer classifier.
//! Shares no code with grenad (only the codec crates).

use std::io::{Read, Write};

pub const MAGIC_V1: u32 = 0x76324D4C;
pub const MAGIC_V2: u32 = 0x6723D4C4;

#[derive(Clone, Debug)]
pub struct Block {
    pub offset: u64,
    pub stored_len: u64,
    /// decompressed size
    pub size: usize,
    pub payload_len: usize,
    pub table: Vec<u64>,
    /// (start of the entry, key, value)
    pub entries: Vec<(usize, Vec<u8>, Vec<u8>)>,
    /// distance from the root, None for data blocks
    pub level: Option<usize>,
}

impl Block {
    pub fn end(&self) -> u64 {
        self.offset + 8 + self.stored_len
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Trailer {
    pub version: u8,
    pub root: u64,
    pub codec: u8,
    pub count: u64,
    pub levels: u8,
}

/// Exactly the strings that end with a complete trailer.
pub fn classify(bytes: &[u8]) -> Option<Trailer> {
    let n = bytes.len();
    if n < 4 {
        return None;
    }
    let magic = u32::from_le_bytes([bytes[n - 4], bytes[n - 3], bytes[n - 2], bytes[n - 1]]);
    let u64_at = |i: usize| {
        let mut x = 0u64;
        for k in (0..8).rev() {
            x = x << 8 | bytes[i + k] as u64;
        }
        x
    };
    if magic == MAGIC_V1 {
        if n < 21 {
            return None;
        }
        let s = n - 21;
        if bytes[s + 8] > 5 {
            return None;
        }
        Some(Trailer { version: 1, root: u64_at(s), codec: bytes[s + 8], count: u64_at(s + 9), levels: 0 })
    } else if magic == MAGIC_V2 {
        if n < 22 {
            return None;
        }
        let s = n - 22;
        if bytes[s + 8] > 5 {
            return None;
        }
        Some(Trailer {
            version: 2,
            root: u64_at(s),
            codec: bytes[s + 8],
            count: u64_at(s + 9),
            levels: bytes[s + 17],
        })
    } else {
        None
    }
}

pub fn decompress(codec: u8, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    match codec {
        0 => out.extend_from_slice(data),
        1 => {
            out = snap::raw::Decoder::new().decompress_vec(data).map_err(|e| e.to_string())?;
        }
        2 => {
            let mut d = flate2::read::ZlibDecoder::new(data);
            d.read_to_end(&mut out).map_err(|e| e.to_string())?;
            if d.total_in() != data.len() as u64 {
                return Err("zlib stream does not fill the block".into());
            }
        }
        3 => {
            lz4_flex::frame::FrameDecoder::new(data).read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        4 => {
            out = zstd::stream::decode_all(data).map_err(|e| e.to_string())?;
        }
        5 => {
            snap::read::FrameDecoder::new(data).read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        _ => return Err("unknown codec".into()),
    }
    Ok(out)
}

pub fn compress(codec: u8, level: u32, data: &[u8]) -> Vec<u8> {
    match codec {
        0 => data.to_vec(),
        1 => snap::raw::Encoder::new().compress_vec(data).unwrap(),
        2 => {
            let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        3 => {
            let mut e = lz4_flex::frame::FrameEncoder::new(Vec::new());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        4 => zstd::stream::encode_all(data, level as i32).unwrap(),
        5 => {
            let mut e = snap::write::FrameEncoder::new(Vec::new());
            e.write_all(data).unwrap();
            e.into_inner().unwrap()
        }
        _ => unreachable!(),
    }
}

fn varint(data: &[u8], at: &mut usize) -> Result<u32, String> {
    let mut x: u64 = 0;
    for i in 0..5 {
        let b = *data.get(*at).ok_or("varint runs over the payload")?;
        *at += 1;
        x |= ((b & 0x7f) as u64) << (7 * i);
        if b & 0x80 == 0 {
            return u32::try_from(x).map_err(|_| "varint over 32 bits".to_string());
        }
    }
    Err("varint over five bytes".into())
}

fn push_varint(out: &mut Vec<u8>, mut x: u32) {
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}

/// Decodes one block at `offset`, the block must end at or before `limit`.
pub fn decode_block(bytes: &[u8], offset: u64, limit: u64, codec: u8) -> Result<Block, String> {
    let o = offset as usize;
    if offset + 8 > limit {
        return Err(format!("block at {offset}: no room for the length"));
    }
    let mut len = 0u64;
    for b in &bytes[o..o + 8] {
        len = len << 8 | *b as u64;
    }
    let end = (offset + 8).checked_add(len).filter(|e| *e <= limit).ok_or_else(|| {
        format!("block at {offset}: stored length {len} runs over the end of the blocks ({limit})")
    })?;
    let raw = decompress(codec, &bytes[o + 8..end as usize])
        .map_err(|e| format!("block at {offset}: {e}"))?;
    if raw.len() < 4 {
        return Err(format!("block at {offset}: decompressed to {} bytes", raw.len()));
    }
    let n = raw.len();
    let count = u32::from_be_bytes([raw[n - 4], raw[n - 3], raw[n - 2], raw[n - 1]]) as usize;
    let payload_len = (n - 4)
        .checked_sub(count * 8)
        .ok_or_else(|| format!("block at {offset}: table of {count} offsets does not fit"))?;
    let table: Vec<u64> = (0..count)
        .map(|i| {
            raw[payload_len + i * 8..payload_len + i * 8 + 8].iter().fold(0u64, |a, b| a << 8 | *b as u64)
        })
        .collect();
    let payload = &raw[..payload_len];
    let mut entries = Vec::new();
    let mut at = 0;
    while at < payload_len {
        let start = at;
        let kl = varint(payload, &mut at).map_err(|e| format!("block at {offset}: {e}"))? as usize;
        let vl = varint(payload, &mut at).map_err(|e| format!("block at {offset}: {e}"))? as usize;
        if at + kl + vl > payload_len {
            return Err(format!("block at {offset}: entry at {start} runs over the payload"));
        }
        entries.push((start, payload[at..at + kl].to_vec(), payload[at + kl..at + kl + vl].to_vec()));
        at += kl + vl;
    }
    Ok(Block { offset, stored_len: len, size: n, payload_len, table, entries, level: None })
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub trailer: Trailer,
    /// in file order
    pub blocks: Vec<Block>,
    /// indices in `blocks`, in key order
    pub data: Vec<usize>,
    /// indices per level, the root first
    pub index: Vec<Vec<usize>>,
}

impl Decoded {
    pub fn entries(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.data
            .iter()
            .flat_map(|b| self.blocks[*b].entries.iter().map(|(_, k, v)| (k.clone(), v.clone())))
            .collect()
    }
}

/// Splits the file in blocks without looking at how they reference each other.
pub fn split_blocks(bytes: &[u8]) -> Result<(Trailer, Vec<Block>), String> {
    let trailer = classify(bytes).ok_or("no complete trailer")?;
    let limit = bytes.len() as u64 - if trailer.version == 1 { 21 } else { 22 };
    let mut blocks = Vec::new();
    let mut at = 0;
    while at < limit {
        let b = decode_block(bytes, at, limit, trailer.codec)?;
        at = b.end();
        blocks.push(b);
    }
    Ok((trailer, blocks))
}

/// Strict: every byte of the file must be accounted for.
pub fn decode(bytes: &[u8], interval: Option<usize>) -> Result<Decoded, String> {
    let (trailer, mut blocks) = split_blocks(bytes)?;
    if blocks.is_empty() {
        return Err("no block at all".into());
    }
    let by_offset: std::collections::BTreeMap<u64, usize> =
        blocks.iter().enumerate().map(|(i, b)| (b.offset, i)).collect();
    for b in &blocks {
        if b.table.first() != Some(&0) {
            return Err(format!("block at {}: first table offset is not 0", b.offset));
        }
        if let Some(iv) = interval {
            let want: Vec<u64> = if b.entries.is_empty() {
                vec![0]
            } else {
                (0..b.entries.len()).step_by(iv.max(1)).map(|i| b.entries[i].0 as u64).collect()
            };
            if want != b.table {
                return Err(format!(
                    "block at {}: offset table {:?}, expected {:?} (interval {iv})",
                    b.offset,
                    &b.table[..b.table.len().min(12)],
                    &want[..want.len().min(12)]
                ));
            }
        }
        for w in b.entries.windows(2) {
            if w[0].1 >= w[1].1 {
                return Err(format!("block at {}: keys not strictly ascending", b.offset));
            }
        }
    }
    let root = *by_offset
        .get(&trailer.root)
        .ok_or_else(|| format!("root offset {} is not the start of a block", trailer.root))?;
    if root != blocks.len() - 1 {
        return Err(format!("the root (at {}) is not the last block", trailer.root));
    }
    let mut used = vec![false; blocks.len()];
    used[root] = true;
    blocks[root].level = Some(0);
    let mut index = vec![vec![root]];
    let mut current = vec![root];
    let empty_file = blocks[root].entries.is_empty();
    if empty_file && blocks.len() != 1 {
        return Err("empty root but other blocks exist".into());
    }
    let depth = trailer.levels as usize + 1;
    let mut data = Vec::new();
    if !empty_file {
        for level in 0..depth {
            let mut children = Vec::new();
            for b in &current {
                for (_, k, v) in &blocks[*b].entries {
                    let arr: [u8; 8] = v.as_slice().try_into().map_err(|_| {
                        format!("index block at {}: value of {} bytes", blocks[*b].offset, v.len())
                    })?;
                    let off = u64::from_be_bytes(arr);
                    let child = *by_offset.get(&off).ok_or_else(|| {
                        format!("index block at {}: offset {off} is not a block", blocks[*b].offset)
                    })?;
                    if used[child] {
                        return Err(format!("block at {off} referenced twice"));
                    }
                    used[child] = true;
                    let last = blocks[child].entries.last().map(|e| &e.1);
                    if last != Some(k) {
                        return Err(format!(
                            "index block at {}: key is not the last key of the block at {off}",
                            blocks[*b].offset
                        ));
                    }
                    children.push(child);
                }
            }
            for w in children.windows(2) {
                if blocks[w[0]].offset >= blocks[w[1]].offset {
                    return Err("blocks of one level out of order in the file".into());
                }
            }
            if level + 1 < depth {
                for c in &children {
                    blocks[*c].level = Some(level + 1);
                }
                index.push(children.clone());
                current = children;
            } else {
                data = children;
            }
        }
        if let Some(i) = used.iter().position(|u| !u) {
            return Err(format!("block at {} is not referenced", blocks[i].offset));
        }
    }
    let n: u64 = data.iter().map(|b| blocks[*b].entries.len() as u64).sum();
    if n != trailer.count {
        return Err(format!("trailer counts {} entries, the data blocks hold {n}", trailer.count));
    }
    let mut prev: Option<&Vec<u8>> = None;
    for b in &data {
        for (_, k, _) in &blocks[*b].entries {
            if prev.is_some_and(|p| p >= k) {
                return Err("keys not strictly ascending across data blocks".into());
            }
            prev = Some(k);
        }
    }
    Ok(Decoded { trailer, blocks, data, index })
}

/// A block under construction.
#[derive(Clone)]
pub struct Pending {
    payload: Vec<u8>,
    table: Vec<u64>,
    since: usize,
    pub n: usize,
    pub last: Vec<u8>,
}
impl Pending {
    pub fn new() -> Pending {
        Pending { payload: Vec::new(), table: vec![0], since: 0, n: 0, last: Vec::new() }
    }
    pub fn add(&mut self, interval: usize, k: &[u8], v: &[u8]) {
        if self.since == interval {
            self.table.push(self.payload.len() as u64);
            self.since = 0;
        }
        self.since += 1;
        push_varint(&mut self.payload, k.len() as u32);
        push_varint(&mut self.payload, v.len() as u32);
        self.payload.extend_from_slice(k);
        self.payload.extend_from_slice(v);
        self.n += 1;
        self.last = k.to_vec();
    }
    pub fn size(&self) -> usize {
        self.payload.len() + self.table.len() * 8 + 4
    }
    pub fn emit(&mut self, codec: u8, level: u32, out: &mut Vec<u8>) {
        let mut raw = std::mem::take(&mut self.payload);
        for t in &self.table {
            raw.extend_from_slice(&t.to_be_bytes());
        }
        raw.extend_from_slice(&(self.table.len() as u32).to_be_bytes());
        let c = compress(codec, level, &raw);
        out.extend_from_slice(&(c.len() as u64).to_be_bytes());
        out.extend_from_slice(&c);
        *self = Pending::new();
    }
}

/// Writes a file of the given version, with the block structure the format describes.
pub fn encode(
    version: u8,
    entries: &[(Vec<u8>, Vec<u8>)],
    codec: u8,
    level: u32,
    block_size: usize,
    interval: usize,
    levels: u8,
) -> Vec<u8> {
    encode_at(0, version, entries, codec, level, block_size, interval, levels)
}

/// The same, for the end of a file that already has `base` bytes.
#[allow(clippy::too_many_arguments)]
pub fn encode_at(
    base: u64,
    version: u8,
    entries: &[(Vec<u8>, Vec<u8>)],
    codec: u8,
    level: u32,
    block_size: usize,
    interval: usize,
    levels: u8,
) -> Vec<u8> {
    let mut out = Vec::new();
    let b = block_size.max(1024);
    let mut data = Pending::new();
    let nl = if version == 1 { 1 } else { levels as usize + 1 };
    let mut idx = vec![Pending::new(); nl];
    for (k, v) in entries {
        data.add(interval, k, v);
        if data.size() >= b {
            let (last, off) = (data.last.clone(), base + out.len() as u64);
            idx[nl - 1].add(interval, &last, &off.to_be_bytes());
            data.emit(codec, level, &mut out);
            for l in (2..nl).rev() {
                if idx[l].size() >= b {
                    let (last, off) = (idx[l].last.clone(), base + out.len() as u64);
                    idx[l - 1].add(interval, &last, &off.to_be_bytes());
                    idx[l].emit(codec, level, &mut out);
                }
            }
        }
    }
    if data.n > 0 {
        let (last, off) = (data.last.clone(), base + out.len() as u64);
        idx[nl - 1].add(interval, &last, &off.to_be_bytes());
        data.emit(codec, level, &mut out);
    }
    let mut root = 0;
    for l in (0..nl).rev() {
        if idx[l].n > 0 || l == 0 {
            root = base + out.len() as u64;
            if l > 0 {
                let last = idx[l].last.clone();
                idx[l - 1].add(interval, &last, &root.to_be_bytes());
            }
            idx[l].emit(codec, level, &mut out);
        }
    }
    out.extend_from_slice(&root.to_le_bytes());
    out.push(codec);
    out.extend_from_slice(&(entries.len() as u64).to_le_bytes());
    if version == 1 {
        out.extend_from_slice(&MAGIC_V1.to_le_bytes());
    } else {
        out.push(levels);
        out.extend_from_slice(&MAGIC_V2.to_le_bytes());
    }
    out
}

/// Number of blocks, from the stored lengths only.
pub fn count_blocks(bytes: &[u8]) -> u64 {
    let Some(t) = classify(bytes) else { return 0 };
    let limit = bytes.len() as u64 - if t.version == 1 { 21 } else { 22 };
    let (mut at, mut n) = (0u64, 0);
    while at + 8 <= limit {
        let len = bytes[at as usize..at as usize + 8].iter().fold(0u64, |a, b| a << 8 | *b as u64);
        n += 1;
        at = match at.checked_add(8).and_then(|x| x.checked_add(len)) {
            Some(x) => x,
            None => break,
        };
    }
    n
}
