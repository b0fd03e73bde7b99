//! Bounded exhaustive exploration of the safe API under Miri's abstract machine (C23).
//!
//! Every execution is one call (or one evaluation of an expression) on one combination of
//! dimensions, representations and scalar type, and then once more for every point at which a
//! scalar operation or a user closure can panic (fault injection at every crash point).  Miri is
//! the monitor: it stops the program at the first undefined behaviour and reports leaks at exit.
//!
//! usage: aegir_miri SHARD NSHARDS quick|thorough [FROM [TO]]
//!
//! Prints `case <index> <name>` when a group begins, and a line `DONE <groups> <executions> <faults> <ops>`.
mod scal;
mod kernels;
mod bufs;
mod exprs;
use scal::*;
use std::cell::Cell;

pub struct Run {
    pub shard: usize,
    pub n: usize,
    pub thorough: bool,
    /// Groups before this one are passed over.
    pub from: usize,
    /// The groups end before this one.
    pub to: usize,
    pub next: usize,
    pub groups: usize,
}
thread_local! {
    pub static THOROUGH: Cell<bool> = Cell::new(false);
    pub static EXECS: Cell<u64> = Cell::new(0);
    pub static FAULTS: Cell<u64> = Cell::new(0);
    pub static PANICS: Cell<u64> = Cell::new(0);
    pub static OPS: Cell<u64> = Cell::new(0);
}
fn bump(c: &'static std::thread::LocalKey<Cell<u64>>, n: u64) { c.with(|c| c.set(c.get() + n)) }

impl Run {
    /// Begin a group; false when the group belongs to another shard.
    pub fn group(&mut self, name: std::fmt::Arguments) -> bool {
        let i = self.next;
        self.next += 1;
        faults(true);
        if i % self.n != self.shard || i < self.from || i >= self.to { return false }
        self.groups += 1;
        println!("case {i} {name}");
        true
    }
}

thread_local! { static ON: Cell<bool> = Cell::new(true) }
/// Crash points are only explored where they are switched on.
pub fn faults(on: bool) { ON.with(|f| f.set(on)) }

/// One execution without faults, then one for each of the crash points it passed.
pub fn go<R>(f: impl Fn() -> R) {
    let once = || {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            std::hint::black_box(f());
        }))
    };
    set_fault(u64::MAX);
    bump(&EXECS, 1);
    if once().is_err() { bump(&PANICS, 1) }
    let n = ticks();
    bump(&OPS, n);
    if !ON.with(|f| f.get()) { return }
    for k in 0..n {
        set_fault(k);
        bump(&FAULTS, 1);
        let _ = once();
    }
    set_fault(u64::MAX);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize, d: usize| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let mut r = Run { shard: num(1, 0), n: num(2, 1), thorough: a.get(3).map(|s| s == "thorough").unwrap_or(false), from: num(4, 0), to: num(5, usize::MAX), next: 0, groups: 0 };
    // the library's own checks of unsafe preconditions abort: let it be seen what they say
    std::panic::set_hook(Box::new(|i| {
        let said = i.payload().downcast_ref::<&str>().copied().or_else(|| i.payload().downcast_ref::<String>().map(|s| s.as_str())).unwrap_or("");
        if said.starts_with("unsafe precondition") {
            eprintln!("{}", said);
        }
    }));
    THOROUGH.with(|t| t.set(r.thorough));
    kernels::all(&mut r);
    bufs::all(&mut r);
    exprs::all(&mut r);
    let g = |c: &'static std::thread::LocalKey<Cell<u64>>| c.with(|c| c.get());
    println!("DONE groups={} executions={} faults={} panics={} ops={}", r.groups, g(&EXECS), g(&FAULTS), g(&PANICS), g(&OPS));
}
