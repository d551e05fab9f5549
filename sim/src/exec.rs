//! Executes one run; shrinks a failing one.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

use crate::ctx::*;
use crate::props::Prop;
use crate::tape::{mix2, ListRec, Tape};
use crate::world::{self, Effect};

pub const PROFILE: &str = if cfg!(debug_assertions) { "checked" } else { "release" };

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    Violation(String, String),
    Inconclusive(String),
    Harness(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub digest: u64,
    pub vals: Vec<u64>,
    pub lists: Vec<ListRec>,
    pub effects: Vec<(u64, Effect)>,
    pub effects_overflow: bool,
    pub nontrivial: bool,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
    pub desc: Vec<String>,
    pub trace: Vec<String>,
    pub stats: [u64; world::NSTAT],
    pub op_no: [u64; 6],
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub api_calls: u64,
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix2(mix2(seed, world::hash_bytes(prop.as_bytes())), index)
}

pub fn execute(
    prop: &Prop,
    tape: Tape,
    explicit: Option<Vec<(u64, Effect)>>,
    trace: bool,
    desc: bool,
    tier: Tier,
    index: u64,
) -> Outcome {
    world::reset(explicit, trace);
    rayon_core::sim::install(0, 1);
    grenad::verif_hooks::set_sorter_limits(None);
    crate::alloc::run_begin();
    let mut ctx = Ctx {
        t: tape,
        tier,
        index,
        nontrivial: false,
        probes: Default::default(),
        desc: Vec::new(),
        want_desc: desc || trace,
        digests: Vec::new(),
    };
    take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut ctx)));
    crate::alloc::run_end();
    grenad::verif_hooks::set_sorter_limits(None);
    let verdict = match r {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(Stop::Violation(c, m))) => Verdict::Violation(c, m),
        Ok(Err(Stop::Inconclusive(m))) => Verdict::Inconclusive(m),
        Err(_) => {
            let (m, loc) = take_panic().unwrap_or_default();
            if loc.contains("repo/src/") {
                Verdict::Violation("panic-outside".into(), format!("panicked: {m} at {loc}"))
            } else {
                Verdict::Harness(format!("{m} at {loc}"))
            }
        }
    };
    world::with(|w| Outcome {
        verdict,
        digest: w.hash,
        vals: std::mem::take(&mut ctx.t.vals),
        lists: std::mem::take(&mut ctx.t.lists),
        effects: std::mem::take(&mut w.effects),
        effects_overflow: w.effects_overflow,
        nontrivial: ctx.nontrivial,
        probes: std::mem::take(&mut ctx.probes),
        desc: std::mem::take(&mut ctx.desc),
        trace: w.trace.take().unwrap_or_default(),
        stats: w.stats,
        op_no: w.op_no,
        bytes_read: w.bytes_read,
        bytes_written: w.bytes_written,
        api_calls: w.api_no,
    })
}

#[derive(Clone)]
pub struct Case {
    pub vals: Vec<u64>,
    pub explicit: Option<Vec<(u64, Effect)>>,
}

/// What the shrinker knows about a candidate that still fails.
pub struct Hit {
    pub vals: Vec<u64>,
    pub lists: Vec<ListRec>,
    pub effects: Vec<(u64, Effect)>,
    pub effects_overflow: bool,
    pub message: String,
}

pub struct Shrinker<'a> {
    pub test: &'a mut dyn FnMut(&Case) -> Option<Hit>,
    pub save: &'a mut dyn FnMut(&Case, &str),
    pub deadline: Instant,
    pub tries: u64,
    pub max_tries: u64,
    cur: Case,
    hit: Hit,
}

impl<'a> Shrinker<'a> {
    pub fn new(
        start: Case,
        hit: Hit,
        test: &'a mut dyn FnMut(&Case) -> Option<Hit>,
        save: &'a mut dyn FnMut(&Case, &str),
        budget: Duration,
        max_tries: u64,
    ) -> Self {
        Shrinker { test, save, deadline: Instant::now() + budget, tries: 0, max_tries, cur: start, hit }
    }

    fn exhausted(&self) -> bool {
        self.tries >= self.max_tries || Instant::now() > self.deadline
    }

    fn attempt(&mut self, vals: Vec<u64>) -> bool {
        if self.exhausted() || vals == self.cur.vals {
            return false;
        }
        self.tries += 1;
        let c = Case { vals, explicit: None };
        if let Some(h) = (self.test)(&c) {
            let mut vals = h.vals.clone();
            while vals.last() == Some(&0) {
                vals.pop();
            }
            // never accept something that is not simpler
            let simpler = (vals.len(), &vals) < (self.cur.vals.len(), &self.cur.vals);
            if !simpler {
                return false;
            }
            self.cur = Case { vals, explicit: None };
            self.hit = h;
            (self.save)(&self.cur, &self.hit.message);
            true
        } else {
            false
        }
    }

    pub fn run(mut self) -> (Case, String, u64) {
        // a crash may already have left the tape without trailing zeros etc.
        let mut vals = self.hit.vals.clone();
        while vals.last() == Some(&0) {
            vals.pop();
        }
        self.cur.vals = vals;
        loop {
            let before = self.cur.vals.clone();
            self.lists();
            self.truncate();
            self.zero_chunks();
            self.delete_chunks();
            self.lower();
            if self.cur.vals == before || self.exhausted() {
                break;
            }
        }
        self.schedule();
        (self.cur.clone(), self.hit.message.clone(), self.tries)
    }

    fn lists(&mut self) {
        let mut li = 0;
        loop {
            let n_lists = self.hit.lists.len();
            if li >= n_lists || self.exhausted() {
                return;
            }
            // biggest chunks first
            let mut size = self.hit.lists[li].items.len();
            while size >= 1 {
                let mut at = 0;
                while li < self.hit.lists.len() {
                    let l = self.hit.lists[li].clone();
                    let n = l.items.len();
                    if at >= n {
                        break;
                    }
                    let end = (at + size).min(n);
                    let k = (end - at) as u64;
                    let (s, e) = (l.items[at].0, l.items[end - 1].1);
                    let mut v = self.hit.vals.clone();
                    if l.count_pos >= v.len() || v[l.count_pos] < k || e > v.len() {
                        at = end;
                        continue;
                    }
                    v[l.count_pos] -= k;
                    v.drain(s..e);
                    if !self.attempt(v) {
                        at = end;
                    }
                    if self.exhausted() {
                        return;
                    }
                }
                size /= 2;
            }
            li += 1;
        }
    }

    fn truncate(&mut self) {
        let mut keep = 0usize;
        // binary search for the shortest failing prefix (not monotone, good enough)
        let mut hi = self.cur.vals.len();
        while keep < hi {
            let mid = (keep + hi) / 2;
            let v = self.cur.vals[..mid.min(self.cur.vals.len())].to_vec();
            if self.attempt(v) {
                hi = mid.min(self.cur.vals.len());
            } else {
                keep = mid + 1;
            }
            if self.exhausted() {
                return;
            }
        }
    }

    fn zero_chunks(&mut self) {
        for size in [32usize, 8, 1] {
            let mut i = 0;
            while i < self.cur.vals.len() {
                let mut v = self.cur.vals.clone();
                let end = (i + size).min(v.len());
                if v[i..end].iter().any(|x| *x != 0) {
                    v[i..end].iter_mut().for_each(|x| *x = 0);
                    self.attempt(v);
                }
                i += size;
                if self.exhausted() {
                    return;
                }
            }
        }
    }

    fn delete_chunks(&mut self) {
        for size in [16usize, 4, 2, 1] {
            let mut i = self.cur.vals.len();
            while i > 0 {
                let s = i.saturating_sub(size);
                let mut v = self.cur.vals.clone();
                if i <= v.len() {
                    v.drain(s..i);
                    self.attempt(v);
                }
                i = s.min(self.cur.vals.len());
                if self.exhausted() {
                    return;
                }
            }
        }
    }

    fn lower(&mut self) {
        let mut i = 0;
        while i < self.cur.vals.len() {
            let x = self.cur.vals[i];
            if x > 0 {
                let mut lo = 0u64; // known not to work (or untested)
                let mut hi = x; // works
                for cand in [0u64, 1, 2, 3] {
                    if cand < hi {
                        let mut v = self.cur.vals.clone();
                        v[i] = cand;
                        if self.attempt(v) {
                            hi = cand;
                            break;
                        }
                        lo = cand;
                    }
                }
                while hi > lo + 1 && i < self.cur.vals.len() && self.cur.vals[i] == hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut v = self.cur.vals.clone();
                    v[i] = mid;
                    if self.attempt(v) {
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                    if self.exhausted() {
                        return;
                    }
                }
            }
            i += 1;
            if self.exhausted() {
                return;
            }
        }
    }

    /// Turns the parametric schedule into an explicit list of effects and removes what is not needed.
    fn schedule(&mut self) {
        if self.hit.effects_overflow || self.hit.effects.is_empty() {
            return;
        }
        self.deadline += Duration::from_secs(5);
        self.max_tries += 600;
        let mut list = self.hit.effects.clone();
        let try_list = |me: &mut Self, l: &[(u64, Effect)]| -> bool {
            if me.exhausted() {
                return false;
            }
            me.tries += 1;
            let c = Case { vals: me.cur.vals.clone(), explicit: Some(l.to_vec()) };
            match (me.test)(&c) {
                Some(h) => {
                    me.hit = h;
                    me.cur = c;
                    (me.save)(&me.cur, &me.hit.message);
                    true
                }
                None => false,
            }
        };
        if !try_list(self, &list) {
            return;
        }
        let mut size = list.len();
        while size >= 1 {
            let mut at = 0;
            while at < list.len() {
                let end = (at + size).min(list.len());
                let mut l = list.clone();
                l.drain(at..end);
                if try_list(self, &l) {
                    list = l;
                } else {
                    at = end;
                }
                if self.exhausted() {
                    return;
                }
            }
            size /= 2;
        }
    }
}
