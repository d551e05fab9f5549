//! C11 (results do not depend on how I/O is split) and C12 (failures surface).

use crate::ctx::*;
use crate::scen::*;
use crate::world::{self, Effect, FaultSpec, IoPlan, Op, SimError, OPS};

fn digest(p: &Player) -> u64 {
    let mut h = 7u64;
    for s in &p.log {
        h = crate::tape::mix2(h, s.hash ^ s.label.len() as u64);
    }
    for (n, b) in &p.outputs {
        h = crate::tape::mix2(h, world::hash_bytes(b) ^ n.len() as u64);
    }
    h
}

fn first_difference(a: &Player, b: &Player) -> Option<String> {
    for (i, x) in a.log.iter().enumerate() {
        match b.log.get(i) {
            None => return Some(format!("stopped before call {i} ({})", x.show())),
            Some(y) if !x.same(y) => return Some(format!("call {i}: {} instead of {}", y.show(), x.show())),
            _ => {}
        }
    }
    if b.log.len() > a.log.len() {
        return Some(format!("went on: {}", b.log[a.log.len()].show()));
    }
    if a.outputs.len() != b.outputs.len() {
        return Some(format!("{} files instead of {}", b.outputs.len(), a.outputs.len()));
    }
    for ((n, x), (m, y)) in a.outputs.iter().zip(&b.outputs) {
        if n != m {
            return Some(format!("file {m} instead of {n}"));
        }
        if x != y {
            let at = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            return Some(format!(
                "{n} received {} bytes instead of {}, first difference at {at}",
                y.len(),
                x.len()
            ));
        }
    }
    None
}

pub fn c11(ctx: &mut Ctx) -> R<()> {
    let big = ctx.t.chance(1, 12);
    let o = if big {
        ScenOpts { max_bytes: 120_000, max_entries: 600, ops: 60, real_storage: true }
    } else {
        ScenOpts { max_bytes: 20_000, max_entries: 200, ops: 40, real_storage: true }
    };
    world::install(IoPlan::canonical());
    let scen = gen_scen(ctx, &o)?;
    let n = ctx.t.range(1, 3);
    let mut plans: Vec<IoPlan> = Vec::new();
    for _ in 0..n {
        let mut p = IoPlan::draw_benign(&mut ctx.t);
        if p.is_canonical() {
            p.read_mode = world::Mode::One;
            p.write_mode = world::Mode::One;
        }
        plans.push(p);
    }
    world::install(IoPlan::canonical());
    let a = play(&scen);
    if let Some(s) = a.log.iter().find(|s| !matches!(s.out, StepOut::Ok)) {
        return inconclusive(format!("the undisturbed play failed: {}", s.show()));
    }
    world::note(digest(&a));
    // a repeated run
    world::install(IoPlan::canonical());
    let b = play(&scen);
    if let Some(d) = first_difference(&a, &b) {
        return violation("not-repeatable", format!("the same scenario played twice: {d}"));
    }
    for p in plans {
        let before = world::with(|w| w.stats);
        world::install(p.clone());
        let c = play(&scen);
        if let Some(d) = first_difference(&a, &c) {
            return violation("schedule-dependent", format!("under [{}]: {d}", p.describe()));
        }
        let after = world::with(|w| w.stats);
        if (0..4).any(|i| after[i] > before[i]) {
            ctx.nontrivial = true;
        }
        ctx.probe("schedules_compared");
    }
    ctx.probe(match scen {
        Scen::Write { .. } => "writer",
        Scen::Read { .. } => "cursor",
        Scen::Iter { .. } => "iterators",
        Scen::Merge { .. } => "merger",
        Scen::Sort { .. } => "sorter",
    });
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn io_of(e: &AErr) -> Option<&std::io::Error> {
    match e {
        AErr::Io(e) => Some(e),
        AErr::G(grenad::Error::Io(e)) => Some(e),
        _ => None,
    }
}

fn err_style(s: &Scen) -> u8 {
    match s {
        Scen::Sort { cfg, .. } => cfg.err_style,
        _ => 0,
    }
}

/// Looks at a play during which `fired` happened.
fn judge(p: &Player, fired: &[world::Fired], style: u8, what: &str) -> R<bool> {
    let mut reported = false;
    for s in &p.log {
        let mine: Vec<&world::Fired> = fired.iter().filter(|f| f.api_no == s.api_no).collect();
        match &s.out {
            StepOut::Panic(i) if i.livelock => {
                return violation(
                    "livelock",
                    format!("{what}: {} makes more than {} component calls", s.label, world::API_LIMIT),
                )
            }
            StepOut::Panic(i) => return violation(format!("panic:{}", s.label), format!("{what}: {} panicked: {}", s.label, i.msg)),
            StepOut::Ok if mine.is_empty() => {}
            StepOut::Ok => {
                let f = mine[0];
                return violation(
                    format!("swallowed:{}:{}", s.label, OPS[f.op as usize]),
                    format!(
                        "{what}: {} returned Ok although component call #{} ({}) failed with {:?} during it",
                        s.label, f.call_no, OPS[f.op as usize], f.effect
                    ),
                );
            }
            StepOut::Err(e) if mine.is_empty() => {
                return violation(
                    format!("spurious-error:{}", s.label),
                    format!("{what}: {} returned {e:?}, no component failed during it", s.label),
                )
            }
            StepOut::Err(e) => {
                let ok = mine.iter().any(|f| match f.op {
                    Op::Merge => matches!(e, AErr::G(grenad::Error::Merge(x)) if *x == SimError(f.call_no)),
                    Op::Create if style == 1 => matches!(e, AErr::G(grenad::Error::InvalidCompressionType)),
                    Op::Create if style == 2 => matches!(e, AErr::G(grenad::Error::InvalidFormatVersion)),
                    _ => io_of(e).is_some_and(|e| world::carries(e, f.effect, f.call_no)),
                });
                if !ok {
                    let f = mine[0];
                    return violation(
                        format!("other-error:{}:{}", s.label, OPS[f.op as usize]),
                        format!(
                            "{what}: {} returned {e:?}, component call #{} ({}) failed with {:?}",
                            s.label, f.call_no, OPS[f.op as usize], f.effect
                        ),
                    );
                }
                reported = true;
            }
        }
    }
    Ok(reported)
}

pub fn c12(ctx: &mut Ctx) -> R<()> {
    let size = ctx.t.weighted(&[8, 3, 1]);
    let o = match size {
        0 => ScenOpts { max_bytes: 4_000, max_entries: 60, ops: 20, real_storage: false },
        1 => ScenOpts { max_bytes: 12_000, max_entries: 150, ops: 40, real_storage: false },
        _ => ScenOpts { max_bytes: 60_000, max_entries: 400, ops: 40, real_storage: false },
    };
    world::install(IoPlan::canonical());
    let scen = gen_scen(ctx, &o)?;
    let style = err_style(&scen);
    let plan = if ctx.t.chance(1, 3) { IoPlan::draw_benign(&mut ctx.t) } else { IoPlan::canonical() };

    // when nothing fails, no error is reported
    world::install(plan.clone());
    let ops0 = world::with(|w| w.op_no);
    let mark = world::with(|w| w.fired.len());
    let dry = play(&scen);
    if world::with(|w| w.fired.len()) > mark {
        return inconclusive("the replay file breaks the undisturbed play");
    }
    let ops1 = world::with(|w| w.op_no);
    for s in &dry.log {
        match &s.out {
            StepOut::Ok => {}
            StepOut::Err(e) => {
                return violation(
                    format!("spurious-error:{}", s.label),
                    format!("no component fails: {} returned {e:?}", s.label),
                )
            }
            StepOut::Panic(p) => return inconclusive(format!("the undisturbed play panics: {}", p.msg)),
        }
    }
    let counts: Vec<u64> = (0..6).map(|i| ops1[i] - ops0[i]).collect();
    let total: u64 = counts.iter().sum();
    ctx.probe(match scen {
        Scen::Write { .. } => "writer",
        Scen::Read { .. } => "cursor",
        Scen::Iter { .. } => "iterators",
        Scen::Merge { .. } => "merger",
        Scen::Sort { .. } => "sorter",
    });

    // the k-th call of each kind fails
    let cap = if ctx.tier == Tier::Thorough { 600 } else { 120 };
    let mut targets: Vec<(Op, u64)> = Vec::new();
    const ALL: [Op; 6] = [Op::Read, Op::Write, Op::Flush, Op::Seek, Op::Create, Op::Merge];
    if total <= cap {
        ctx.probe("every_fault_point");
        for op in ALL {
            for k in 1..=counts[op as usize] {
                targets.push((op, k));
            }
        }
    } else {
        ctx.probe("sampled_fault_points");
        for op in ALL {
            let n = counts[op as usize];
            if n == 0 {
                continue;
            }
            let rare = matches!(op, Op::Flush | Op::Create | Op::Merge | Op::Seek);
            let m = if rare { 14 } else { 20 }.min(n);
            if n <= m {
                targets.extend((1..=n).map(|k| (op, k)));
            } else {
                // the ends are where headers and trailers are
                for k in [1, 2, n - 1, n] {
                    targets.push((op, k));
                }
                for _ in 4..m {
                    targets.push((op, 1 + ctx.t.draw(n)));
                }
            }
        }
    }
    let kinds_all = ctx.t.chance(1, 24) && total <= 40;
    let mut jobs: Vec<(Op, u64, Effect, bool)> = Vec::new();
    for (op, k) in targets {
        if kinds_all {
            for kind in 0..16u8 {
                jobs.push((op, k, Effect::Err(kind), false));
            }
            continue;
        }
        let kind = ctx.t.draw(16) as u8;
        let effect = if op == Op::Write {
            match ctx.t.weighted(&[4, 2, 3]) {
                0 => Effect::Err(kind),
                1 => Effect::Zero,
                _ => Effect::Defer(kind),
            }
        } else {
            Effect::Err(kind)
        };
        jobs.push((op, k, effect, ctx.t.chance(1, 5)));
    }
    if kinds_all {
        ctx.probe("every_error_kind_at_every_fault_point");
    }
    for (op, k, effect, sticky) in jobs {
        let mut p = plan.clone();
        // a sticky fault means the component stays broken
        p.faults = vec![FaultSpec { ops: 1 << op as u8, file: None, nth: k, effect, sticky, seen: 0 }];
        world::install(p);
        let mark = world::with(|w| w.fired.len());
        let run = play(&scen);
        let fired: Vec<world::Fired> = world::with(|w| w.fired[mark..].to_vec());
        let what = || {
            format!(
                "{} call {k} of {} {} with {effect:?}{}",
                OPS[op as usize],
                counts[op as usize],
                if matches!(effect, Effect::Defer(_)) { "loses its data" } else { "fails" },
                if sticky { " and so do all later ones" } else { "" }
            )
        };
        let reported = judge(&run, &fired, style, &what())?;
        if !reported && !matches!(effect, Effect::Defer(_)) {
            if fired.iter().any(|f| f.api != "drop") {
                // every firing call is a step of the log: judged above
                return inconclusive("a failure outside every public call");
            }
            ctx.probe("fault_point_not_reached");
        }
        if reported {
            ctx.probe("failures_reported");
            ctx.nontrivial = true;
        }
        if run.log.iter().all(|s| matches!(s.out, StepOut::Ok)) {
            if let Some((f, n)) = run.unreported.first() {
                return violation(
                    "deferred-failure-lost",
                    format!(
                        "{}: every call returned Ok, file{f} was never flushed after the write of call #{n}, whose failure is lost",
                        what()
                    ),
                );
            }
        }
    }
    Ok(())
}

