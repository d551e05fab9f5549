//! C17: memory and arithmetic, under the simulated allocator.

use grenad::{CompressionType, Reader};

use crate::alloc;
use crate::ctx::*;
use crate::gen::*;
use crate::scen::*;
use crate::tape::{mix, mix2, Tape};
use crate::world::{self, Effect, FaultSpec, IoPlan, SimChunks};

/// What a play showed, without anything the code under test allocated.
#[derive(PartialEq)]
struct Shown {
    steps: Vec<(String, u64)>,
    outputs: Vec<(String, u64, usize)>,
    /// the failures of the play: component, call number within the play, effect
    fired: Vec<(u8, u64, Effect)>,
}

/// An error is compared without the number of the component call that caused it.
fn unnumbered(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut skip = false;
    for (i, c) in s.char_indices() {
        if s[..i].ends_with("SimError(") || s[..i].ends_with("simfault#") {
            skip = true;
        }
        skip &= c.is_ascii_digit();
        if !skip {
            out.push(c);
        }
    }
    out
}

/// Where a play starts in the history of the run.
fn mark() -> (usize, u64) {
    world::with(|w| (w.fired.len(), w.call_no))
}

fn condense(p: &Player, mark: (usize, u64)) -> Shown {
    Shown {
        fired: world::with(|w| w.fired[mark.0..].iter().map(|f| (f.op as u8, f.call_no - mark.1, f.effect)).collect()),
        steps: p.log.iter().map(|s| (unnumbered(&s.show()), s.hash)).collect(),
        outputs: p.outputs.iter().map(|(n, b)| (n.clone(), world::hash_bytes(b), b.len())).collect(),
    }
}

fn differ(a: &Shown, b: &Shown) -> Option<String> {
    if a.fired != b.fired && world::with(|w| w.explicit.is_some()) {
        // a replay file names component calls of the run, so it may break one play only
        return None;
    }
    for (i, x) in a.steps.iter().enumerate() {
        match b.steps.get(i) {
            Some(y) if x == y => {}
            Some(y) => return Some(format!("call {i}: {} versus {}", x.0, y.0)),
            None => return Some(format!("one play ends before call {i} ({})", x.0)),
        }
    }
    if b.steps.len() > a.steps.len() {
        return Some(format!("one play goes on with {}", b.steps[a.steps.len()].0));
    }
    for (x, y) in a.outputs.iter().zip(&b.outputs) {
        if x != y {
            return Some(format!("bytes of {} ({} and {} bytes)", x.0, x.2, y.2));
        }
    }
    None
}

fn overflow_in(p: &Player) -> Option<String> {
    p.log.iter().find_map(|s| match &s.out {
        StepOut::Panic(i) if i.overflow => Some(format!("{}: {}", s.label, i.msg)),
        _ => None,
    })
}

fn check_allocator(what: &str) -> R<()> {
    alloc::sweep();
    match alloc::broken() {
        Some(m) => violation("allocator", format!("{what}: {m}")),
        None => Ok(()),
    }
}

/// Plays on the plain allocator and twice on the simulated one.
fn play_thrice(ctx: &mut Ctx, plan: &IoPlan, seed: u64, f: &dyn Fn() -> Player) -> R<()> {
    world::install(plan.clone());
    let m = mark();
    let p = f();
    if let Some(m) = overflow_in(&p) {
        return violation("overflow", format!("arithmetic overflow: {m}"));
    }
    let plain = condense(&p, m);
    drop(p);
    let mut panicked = false;
    let mut sims: Vec<Shown> = Vec::new();
    for (round, poison) in [(0u64, 0xA5u8), (1, 0x5A)] {
        world::install(plan.clone());
        if !alloc::activate(mix2(seed, round), poison) {
            return inconclusive("no arena");
        }
        let m = mark();
        let p = f();
        alloc::deactivate();
        if let Some(m) = overflow_in(&p) {
            return violation("overflow", format!("arithmetic overflow: {m}"));
        }
        panicked |= p.log.iter().any(|s| matches!(s.out, StepOut::Panic(_)));
        sims.push(condense(&p, m));
        drop(p);
        check_allocator("during the play")?;
        // lazily created state of the libraries exists since the first round
        if round == 1 && !panicked {
            if let Some((n, bytes, api)) = alloc::leaks() {
                return violation(
                    "leak",
                    format!("{n} blocks ({bytes} bytes) are never freed, the last was allocated in public call {api}"),
                );
            }
            ctx.probe("leak_checked");
        }
    }
    if let Some(d) = differ(&sims[0], &sims[1]) {
        return violation(
            "uninitialised-or-freed-memory",
            format!("results depend on what fresh and freed memory contains: {d}"),
        );
    }
    if let Some(d) = differ(&plain, &sims[0]) {
        return violation(
            "layout-dependent",
            format!("results depend on where blocks are placed (minimal alignment, no slack): {d}"),
        );
    }
    if panicked {
        ctx.probe("play_panics");
    }
    let (a, _, g, r) = alloc::stats();
    ctx.probe_n("sim_allocations", a);
    ctx.probe_n("guard_page_allocations", g);
    ctx.probe_n("moved_reallocations", r);
    world::note(a);
    Ok(())
}

/// Inserts aimed at the borders of the sorter's buffer.
fn gen_tight(t: &mut Tape) -> (SCfg, Vec<Kv>) {
    let initial = match t.weighted(&[4, 3, 2]) {
        0 => t.pick(&[16usize, 32, 48, 64, 17, 31, 1, 15, 96, 128]),
        1 => t.range(1, 300),
        _ => t.pick(&[256usize, 1000, 1024, 1023, 4096, 2000]),
    };
    let budget = match t.weighted(&[3, 3, 2]) {
        0 => initial,
        1 => initial * t.pick(&[2usize, 3, 4, 8, 16]) + t.pick(&[0usize, 1, 15, 16]),
        _ => t.range(1, 4 * initial),
    }
    .max(1);
    let mut cfg = gen_scfg(t);
    cfg.limits = Some((budget, initial));
    cfg.dump = Some(if t.chance(1, 2) { 0 } else { budget + t.below(2 * budget) });
    if cfg.storage == Storage::TempFile {
        cfg.storage = Storage::Sim;
    }
    cfg.keep = false;
    if t.chance(1, 12) {
        cfg.max_chunks = Some(usize::MAX);
    }
    let threshold = cfg.budget();
    let up = |x: usize| (x + 15) / 16 * 16;
    let mut cap = up(if cfg.realloc { initial } else { threshold });
    let mut used = 0usize;
    let n_max = if t.chance(1, 4) { 120 } else { 30 };
    let seed = t.draw(1 << 32);
    let keys = t.range(1, 40);
    let ins = t.list(1, n_max, |t, i| {
        let room = cap.saturating_sub(used);
        let len = match t.weighted(&[5, 2, 2, 2, 2, 1, 1, 1, 1]) {
            // exactly fills the buffer
            0 => room.saturating_sub(16),
            1 => 0,
            2 => t.range(0, 40),
            // one more, one less
            3 => room.saturating_sub(15),
            4 => room.saturating_sub(17),
            // there is room for the bytes but not for the bound
            5 => room.saturating_sub(t.below(16)),
            // exactly fills the buffer after it was doubled
            6 => (2 * cap).saturating_sub(used + 16),
            // larger than the buffer, several doublings
            7 => cap + t.below(3 * cap + 2),
            _ => t.range(0, cap),
        }
        .min(40_000);
        // what the sorter is expected to do; only used to aim
        if used + 16 + len <= cap {
            used += 16 + len;
        } else {
            if cap >= threshold || !cfg.realloc {
                used = 0;
            }
            while used + 16 + len > cap {
                cap *= 2;
            }
            used += 16 + len;
        }
        let kl = match t.draw(4) {
            0 => len.min(4),
            1 => len,
            2 => 0,
            _ => t.below(len + 1),
        };
        let x = mix2(seed, i as u64 % keys as u64);
        (bytes_from(x, kl, 1), bytes_from(mix(i as u64), len - kl, 0))
    });
    (cfg, ins)
}

/// Entries handed out by one cursor stay valid while others work on the same file.
fn hold(ctx: &mut Ctx) -> R<()> {
    let o = ScenOpts { max_bytes: 20_000, max_entries: 200, ops: 10, real_storage: false };
    world::install(IoPlan::canonical());
    let (image, entries) = gen_image(ctx, &o)?;
    let id = world::new_file(image);
    let shared = ctx.t.chance(1, 3);
    let script: Vec<(u64, u64, Vec<u8>)> =
        ctx.t.list(1, 40, |t, _| (t.draw(8), t.draw(6), gen_probe(t, &entries)));
    let seed = ctx.t.seed();
    let mut shown: Vec<Vec<u64>> = Vec::new();
    for (round, poison) in [(0u64, 0xA5u8), (1, 0x5A)] {
        world::install(IoPlan::canonical());
        if !alloc::activate(mix2(seed, round), poison) {
            return inconclusive("no arena");
        }
        let mut log = Vec::new();
        let r = guard("held entries", || -> Result<Option<String>, grenad::Error> {
            let r = Reader::new(reader_handle(id, shared))?;
            let mut a = r.clone().into_cursor()?;
            let mut b = a.clone();
            let mut fwd = r.clone().into_range_iter::<_, Vec<u8>>(..)?;
            let mut bwd = r.into_rev_range_iter::<_, Vec<u8>>(..)?;
            for (op, other, q) in &script {
                let held = match op {
                    0 => a.move_on_next()?,
                    1 => a.move_on_prev()?,
                    2 => a.move_on_key_greater_than_or_equal_to(q)?,
                    3 => a.move_on_key_lower_than_or_equal_to(q)?,
                    4 => fwd.next()?,
                    5 => bwd.next()?,
                    6 => a.move_on_last()?,
                    _ => a.current(),
                };
                let before = world::harness(|| held.map(|(k, v)| (k.to_vec(), v.to_vec())));
                let n = match other {
                    0 => b.move_on_next()?.map_or(0, |e| e.0.len()),
                    1 => b.move_on_first()?.map_or(0, |e| e.0.len()),
                    2 => b.move_on_key_equal_to(q)?.map_or(0, |e| e.1.len()),
                    3 => {
                        b = b.clone();
                        b.move_on_prev()?.map_or(0, |e| e.0.len())
                    }
                    4 => {
                        b.reset();
                        b.move_on_last()?.map_or(0, |e| e.0.len())
                    }
                    _ => {
                        let mut it = b.clone().into_reader().into_prefix_iter(q.clone())?;
                        it.next()?.map_or(0, |e| e.0.len())
                    }
                };
                world::harness(|| log.push(n as u64));
                let after = held;
                let same = match (&before, after) {
                    (None, None) => true,
                    (Some((k, v)), Some((k2, v2))) => k == k2 && v == v2,
                    _ => false,
                };
                world::harness(|| log.push(hkv(after)));
                if !same {
                    return Ok(Some(world::harness(|| {
                        format!("an entry handed out changed while another cursor worked: {}", show_kv(&before))
                    })));
                }
            }
            Ok(None)
        });
        alloc::deactivate();
        check_allocator("while entries were held")?;
        match r {
            Ok(Ok(None)) => {}
            Ok(Ok(Some(m))) => return violation("borrowed-entry", m),
            Ok(Err(_)) => return inconclusive("the scenario failed"),
            Err(p) if p.overflow => return violation("overflow", format!("arithmetic overflow: {}", p.msg)),
            Err(_) => return inconclusive("the scenario panicked"),
        }
        shown.push(log);
    }
    if shown[0] != shown[1] {
        return violation(
            "uninitialised-or-freed-memory",
            "entries handed out depend on what fresh and freed memory contains".to_string(),
        );
    }
    ctx.probe("held_entries");
    ctx.nontrivial = entries.len() > 2;
    Ok(())
}

/// The system has no memory left when the sorter's buffer must grow, or the budget is absurd.
fn no_memory(ctx: &mut Ctx) -> R<()> {
    let absurd = ctx.t.chance(1, 2);
    let mut cfg = gen_scfg(&mut ctx.t);
    cfg.storage = Storage::Sim;
    cfg.codec = Some(CompressionType::None);
    cfg.block_size = Some(1024);
    cfg.interval = None;
    cfg.levels = None;
    let seed = ctx.t.seed();
    if absurd {
        cfg.realloc = ctx.t.chance(1, 6);
        let d = ctx.t.pick(&[
            usize::MAX,
            usize::MAX - 1,
            usize::MAX - 14,
            usize::MAX - 15,
            usize::MAX - 16,
            isize::MAX as usize,
            isize::MAX as usize - 7,
            isize::MAX as usize - 15,
            isize::MAX as usize + 1,
            1 << 62,
        ]);
        cfg.dump = Some(d);
        cfg.limits = Some((16, 64));
    } else {
        cfg.realloc = true;
        let initial = ctx.t.pick(&[8192usize, 16384, 5000]);
        cfg.limits = Some((1 << 20, initial));
        cfg.dump = Some(0);
    }
    let n = ctx.t.range(1, 1500);
    let len = ctx.t.range(0, 120);
    ctx.describe(|| format!("no memory for the buffer: {cfg:?}, {n} inserts of {} bytes", len + 4));
    // the buffer is the only block this large
    let fail = if absurd { usize::MAX } else { 32768 };
    let mut results: Vec<Vec<u64>> = Vec::new();
    for (round, poison) in [(0u64, 0xA5u8), (1, 0x5A)] {
        world::install(IoPlan::canonical());
        if !alloc::activate(mix2(seed, round), poison) {
            return inconclusive("no arena");
        }
        alloc::fail_from(fail);
        let mut log: Vec<u64> = Vec::new();
        let mut panic: Option<PanicInfo> = None;
        let mf = MfKind::First;
        match guard("SorterBuilder::build", || {
            build_sorter(&cfg, mf, SimChunks { keep: false, shared: false, err_style: 0 })
        }) {
            Err(p) => panic = Some(p),
            Ok(mut s) => {
                let mut ok = true;
                for i in 0..n {
                    let k = world::harness(|| (mix(i as u64) as u32).to_be_bytes());
                    let v = world::harness(|| vec![i as u8; len]);
                    match guard("Sorter::insert", || s.insert(k, &v).is_ok()) {
                        Ok(b) => log.push(b as u64),
                        Err(p) => {
                            panic = Some(p);
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    alloc::fail_from(usize::MAX);
                    let r = guard("Sorter::into_stream_merger_iter", || -> Result<u64, grenad::Error<_>> {
                        let mut it = s.into_stream_merger_iter()?;
                        let mut h = 0;
                        while let Some(e) = it.next()? {
                            h = mix2(h, hkv(Some(e)));
                        }
                        Ok(h)
                    });
                    match r {
                        Ok(Ok(h)) => log.push(h),
                        Ok(Err(_)) => log.push(3),
                        Err(p) => panic = Some(p),
                    }
                } else if let Err(p) = guard("drop", move || drop(s)) {
                    panic = Some(p);
                }
            }
        }
        let failed = alloc::failed();
        alloc::deactivate();
        if failed > 0 {
            ctx.probe("allocation_failures");
        }
        if let Some(p) = panic {
            if p.overflow {
                return violation("overflow", format!("arithmetic overflow: {}", p.msg));
            }
            ctx.probe("clean_panics_without_memory");
            log.push(99);
        }
        check_allocator("when the buffer could not grow")?;
        results.push(log);
    }
    if results[0] != results[1] {
        return violation(
            "uninitialised-or-freed-memory",
            "results depend on what fresh and freed memory contains".to_string(),
        );
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn c17(ctx: &mut Ctx) -> R<()> {
    match ctx.t.weighted(&[10, 9, 3, 1]) {
        0 => {
            let (cfg, ins) = gen_tight(&mut ctx.t);
            let mf = ctx.t.pick(&[MfKind::Concat, MfKind::First, MfKind::Last, MfKind::Max, MfKind::Keyed]);
            let out = match ctx.t.draw(3) {
                0 => SortOut::Stream,
                1 => SortOut::Writer(gen_cfg_levels(&mut ctx.t, true)),
                _ => SortOut::Cursors,
            };
            ctx.describe(|| {
                let lens: Vec<(usize, usize)> = ins.iter().map(|(k, v)| (k.len(), v.len())).collect();
                format!("sorter {cfg:?} {mf:?} out {out:?}; key/value lengths {lens:?}")
            });
            let plan = draw_plan(ctx);
            let seed = ctx.t.seed();
            ctx.nontrivial = ins.len() >= 3;
            let scen = Scen::Sort { cfg, mf, ins, out };
            play_thrice(ctx, &plan, seed, &|| play(&scen))
        }
        1 => {
            let o = ScenOpts { max_bytes: 12_000, max_entries: 150, ops: 30, real_storage: true };
            world::install(IoPlan::canonical());
            let mut scen = gen_scen(ctx, &o)?;
            if let Scen::Sort { cfg, .. } = &mut scen {
                cfg.keep = false;
            }
            if let Scen::Write { cfg, .. } = &mut scen {
                // sizes nobody needs, for the arithmetic
                if ctx.t.chance(1, 6) {
                    cfg.levels = ctx.t.pick(&[255u8, 254, 0]);
                    cfg.block_size = ctx.t.pick(&[usize::MAX, 0, isize::MAX as usize]);
                    cfg.interval = ctx.t.pick(&[usize::MAX, 1, 2]);
                }
            }
            let plan = draw_plan(ctx);
            let seed = ctx.t.seed();
            ctx.nontrivial = true;
            ctx.probe(match scen {
                Scen::Write { .. } => "writer",
                Scen::Read { .. } => "cursor",
                Scen::Iter { .. } => "iterators",
                Scen::Merge { .. } => "merger",
                Scen::Sort { .. } => "sorter",
            });
            play_thrice(ctx, &plan, seed, &|| play(&scen))
        }
        2 => hold(ctx),
        _ => no_memory(ctx),
    }
}

/// Mostly nothing fails; sometimes one call does, to walk the error paths.
fn draw_plan(ctx: &mut Ctx) -> IoPlan {
    let mut p = IoPlan::canonical();
    if ctx.t.chance(1, 5) {
        let ops = ctx.t.pick(&[63u8, 1, 2, 4, 8, 16, 32]);
        let nth = 1 + ctx.t.draw(40);
        let effect = Effect::Err(ctx.t.draw(16) as u8);
        p.faults = vec![FaultSpec { ops, file: None, nth, effect, sticky: ctx.t.chance(1, 4), seen: 0 }];
        ctx.probe("play_with_failure");
    }
    p
}

