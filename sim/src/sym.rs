//! The grammar symbol type the simulator hands to lrp. Every comparison and clone lrp makes on it
//! advances the simulated clock of the running task; a task that exhausts its budget is stopped by
//! unwinding. That is how "does not terminate" becomes a deterministic, replayable observation.
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;

pub struct Sym(pub u16);

thread_local! {
    static CLOCK: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Unwind payload: the budget ran out.
pub struct OutOfTime;

pub fn clock() -> u64 {
    CLOCK.with(Cell::get)
}
pub fn set_clock(v: u64) {
    CLOCK.with(|c| c.set(v));
}
/// Sets the absolute limit and returns the previous one.
pub fn set_limit(v: u64) -> u64 {
    LIMIT.with(|c| c.replace(v))
}

#[inline]
pub fn tick() {
    CLOCK.with(|c| {
        let v = c.get() + 1;
        c.set(v);
        if v > LIMIT.with(Cell::get) && !std::thread::panicking() {
            LIMIT.with(|l| l.set(u64::MAX));
            std::panic::resume_unwind(Box::new(OutOfTime));
        }
    });
}

impl Clone for Sym {
    fn clone(&self) -> Self {
        tick();
        Sym(self.0)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Sym {}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Sym {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "s{}", self.0)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "s{}", self.0)
    }
}
impl std::hash::Hash for Sym {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h);
    }
}
