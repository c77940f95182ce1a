//! The symbol type the generated grammars are made of, and the guard the code under test runs in.
//!
//! `Sy` orders by a generated `rank`, so that the order in which the library's ordered maps visit
//! symbols is an input of the test. Every comparison burns fuel: a construction or a parse which
//! does not end runs out of it and unwinds, so that non-termination is decided by a deterministic
//! count of symbol comparisons and never by a clock.
use std::any::Any;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::sync::atomic::{AtomicU64, Ordering as AtomicOrdering};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static REPORT: Cell<Option<&'static AtomicU64>> = const { Cell::new(None) };
}

#[derive(Clone, Copy, Hash)]
pub struct Sy {
    pub rank: u16,
    pub id: u16,
}

struct FuelOut;

#[inline]
fn burn() {
    FUEL.with(|f| {
        let left = f.get();
        if left == 0 {
            f.set(u64::MAX);
            panic_any(FuelOut);
        }
        f.set(left - 1);
    });
}

impl PartialEq for Sy {
    #[inline]
    fn eq(&self, o: &Self) -> bool {
        burn();
        self.rank == o.rank
    }
}
impl Eq for Sy {}
impl PartialOrd for Sy {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Sy {
    #[inline]
    fn cmp(&self, o: &Self) -> Ordering {
        burn();
        self.rank.cmp(&o.rank)
    }
}
impl fmt::Debug for Sy {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}", self.id)
    }
}
impl fmt::Display for Sy {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}", self.id)
    }
}

/// How a guarded call failed to return.
#[derive(Debug, Clone)]
pub enum Crash {
    Fuel(u64),
    Panic(String),
}

impl fmt::Display for Crash {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Fuel(n) => write!(f, "did not finish within {n} symbol comparisons"),
            Self::Panic(m) => write!(f, "panicked: {m}"),
        }
    }
}

pub fn payload(e: &(dyn Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
        .unwrap_or_else(|| "<payload>".into())
}

/// Has this thread count every entry to and exit from a guarded call: odd while inside.
pub fn report_guards(to: &'static AtomicU64) {
    REPORT.with(|r| r.set(Some(to)));
}
fn report() {
    if let Some(n) = REPORT.with(Cell::get) {
        n.fetch_add(1, AtomicOrdering::SeqCst);
    }
}

/// Runs code under test: panics are caught and quiet; `fuel` bounds the symbol comparisons.
pub fn guard<R>(fuel: u64, f: impl FnOnce() -> R) -> Result<R, Crash> {
    let was = GUARDED.with(|g| g.replace(true));
    FUEL.with(|x| x.set(fuel));
    if !was {
        report();
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if !was {
        report();
    }
    let left = FUEL.with(|x| x.replace(u64::MAX));
    if r.is_ok() {
        LAST.with(|l| l.set(fuel.saturating_sub(left)));
    }
    GUARDED.with(|g| g.set(was));
    r.map_err(|e| {
        if e.is::<FuelOut>() {
            Crash::Fuel(fuel)
        } else {
            Crash::Panic(payload(&*e))
        }
    })
}

thread_local! { static LAST: Cell<u64> = const { Cell::new(0) }; }
/// Comparisons the last successful guarded call used.
pub fn last_burn() -> u64 {
    LAST.with(Cell::get)
}

/// Only panics outside guarded calls (bugs of the harness) are printed.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !GUARDED.with(Cell::get) {
            old(i);
        }
    }));
}
