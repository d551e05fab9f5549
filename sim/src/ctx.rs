//! Run context: violations, guarded calls into the code under test, probes.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::tape::Tape;
use crate::world::{self, Livelock};

#[derive(Debug, Clone)]
pub enum Stop {
    /// The property is broken: (class, message)
    Violation(String, String),
    /// The run could not be set up, nothing is known.
    Inconclusive(String),
}
pub type R<T> = Result<T, Stop>;

pub fn violation<T>(class: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Stop::Violation(class.into(), msg.into()))
}
pub fn inconclusive<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Inconclusive(msg.into()))
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub livelock: bool,
    /// overflow check of the instrumented build
    pub overflow: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().downcast_ref::<Livelock>().is_some() {
            "livelock: too many component calls in one public call".to_string()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                // keep the first of nested panics
                if p.is_none() {
                    *p = Some((msg, loc));
                }
            }
        });
    }));
}

pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Runs code under test, catching its panics.
pub fn guard<T>(label: &'static str, f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    world::with(|w| {
        w.api_no += 1;
        w.api = label;
        w.api_io = 0;
        w.stats[13] += 1;
        w.hash = crate::tape::mix2(w.hash, label.len() as u64 * 31 + label.as_bytes()[0] as u64);
        let n = w.api_no;
        if let Some(t) = &mut w.trace {
            if t.len() < 20_000 {
                t.push(format!("call {n}: {label}"));
            }
        }
    });
    take_panic();
    crate::alloc::api_enter(world::with(|w| w.api_no));
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::alloc::api_leave();
    match r {
        Ok(x) => Ok(x),
        Err(p) => {
            let (mut msg, loc) = take_panic().unwrap_or_default();
            let livelock = p.downcast_ref::<Livelock>().is_some();
            if msg.len() > 300 {
                let mut end = 300;
                while !msg.is_char_boundary(end) {
                    end -= 1;
                }
                msg.truncate(end);
            }
            let overflow = msg.starts_with("attempt to ");
            world::trace(|| format!("  panicked: {msg} at {loc}"));
            Err(PanicInfo { msg: format!("{msg} at {loc}"), livelock, overflow })
        }
    }
}

/// Same, a panic is a violation.
pub fn call<T>(label: &'static str, f: impl FnOnce() -> T) -> R<T> {
    match guard(label, f) {
        Ok(x) => Ok(x),
        Err(p) if p.livelock => {
            violation("livelock", format!("{label} made more than {} component calls", world::API_LIMIT))
        }
        Err(p) => violation(format!("panic:{label}"), format!("{label} panicked: {}", p.msg)),
    }
}

/// A call that must succeed.
pub fn call_ok<T, E: std::fmt::Debug>(label: &'static str, f: impl FnOnce() -> Result<T, E>) -> R<T> {
    match call(label, f)? {
        Ok(x) => Ok(x),
        Err(e) => violation(format!("error:{label}"), format!("{label} failed without any failure: {e:?}")),
    }
}

/// Setup done with the code under test: failing to set up decides nothing.
pub fn setup<T, E: std::fmt::Debug>(label: &'static str, f: impl FnOnce() -> Result<T, E>) -> R<T> {
    match guard(label, f) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => inconclusive(format!("{label}: {e:?}")),
        Err(p) => inconclusive(format!("{label} panicked: {}", p.msg)),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub t: Tape,
    pub tier: Tier,
    pub index: u64,
    /// set by the scenario when the run was non-trivial by the property's rule
    pub nontrivial: bool,
    pub probes: BTreeMap<&'static str, u64>,
    pub desc: Vec<String>,
    pub want_desc: bool,
    pub digests: Vec<u64>,
}

impl Ctx {
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn probe_n(&mut self, name: &'static str, n: u64) {
        *self.probes.entry(name).or_insert(0) += n;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            world::trace(|| format!("-- {s}"));
            self.desc.push(s);
        }
    }
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for (i, c) in b.iter().enumerate() {
        if i >= 24 {
            s.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        match c {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b' ' | b'-' | b'_' => s.push(*c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s.push('"');
    s
}

pub fn show_kv(e: &Option<(Vec<u8>, Vec<u8>)>) -> String {
    match e {
        None => "None".into(),
        Some((k, v)) => format!("({}, {})", show(k), show(v)),
    }
}
