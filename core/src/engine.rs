//! Stateless, exhaustive explorer of the real implementation.
//!
//! A *suite* is a deterministic body that draws all its nondeterminism from `Ctl::choose`.  The
//! explorer runs the body once for every choice vector (depth-first, prefixes distributed over
//! worker threads), so the set of executions explored is exactly the finite choice tree.
//! Nothing is sampled: the only use of VERIF_SEED is which executions are written out as
//! examples in the evidence file.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet, VecDeque},
    hash::{BuildHasherDefault, Hash, Hasher},
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

// ------------------------------------------------------------------ output
// The C math library behind the special functions writes diagnostics to stdout; the verdict must
// not be interleaved with them, so fd 1 is pointed at /dev/null and the report goes to a copy.
static OUT: std::sync::OnceLock<Mutex<std::fs::File>> = std::sync::OnceLock::new();
fn emit(s: String) {
    match OUT.get() {
        Some(f) => {
            let _ = f.lock().unwrap().write_all((s + "\n").as_bytes());
        },
        None => std::println!("{}", s),
    }
}
macro_rules! say { ($($t:tt)*) => { emit(format!($($t)*)) } }
// The same library's diagnostics take the lock of C's stdout; replacing them keeps worker threads
// independent.  (Nothing else in these binaries prints through C.)
mod quiet_c {
    use std::os::raw::{c_char, c_int};
    #[no_mangle]
    pub extern "C" fn printf(_: *const c_char) -> c_int { 0 }
    #[no_mangle]
    pub extern "C" fn puts(_: *const c_char) -> c_int { 0 }
    #[no_mangle]
    pub extern "C" fn putchar(c: c_int) -> c_int { c }
    #[no_mangle]
    pub extern "C" fn __printf_chk(_: c_int, _: *const c_char) -> c_int { 0 }
}
pub fn mute_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    unsafe {
        let keep = dup(1);
        if let (true, Ok(null)) = (keep >= 0, std::fs::OpenOptions::new().write(true).open("/dev/null")) {
            dup2(null.as_raw_fd(), 1);
            let _ = OUT.set(Mutex::new(std::fs::File::from_raw_fd(keep)));
        }
    }
}

// ------------------------------------------------------------------ hashing
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u64(&mut self, x: u64) {
        let z = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 = (z ^ (z >> 32)).wrapping_mul(0xd6e8feb86659fd93).rotate_left(29).wrapping_add(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
pub type HSet = HashSet<u64, BuildHasherDefault<Ident>>;
pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ control
#[derive(Clone, Debug)]
pub struct Violation {
    pub suite: String,
    pub sig: String,
    pub detail: String,
    pub choices: Vec<u32>,
}

/// Handed to the body of a suite: the only source of nondeterminism, and the recorder.
pub struct Ctl {
    prefix: Vec<u32>,
    expect: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    salt: u64,
    pub tier: Tier,
    states: HSet,
    nstates_overflow: u64,
    outcomes: HSet,
    transitions: u64,
    validated: u64,
    skipped: u64,
    execs: u64,
    verbose: bool,
    want_desc: bool,
    desc: Vec<String>,
    fails: Vec<(String, String)>,
    counters: BTreeMap<String, u64>,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

const MAX_STATES_PER_WORKER: usize = 24_000_000;

impl Ctl {
    fn new(salt: u64, tier: Tier) -> Ctl {
        Ctl {
            prefix: vec![],
            expect: vec![],
            trace: vec![],
            salt,
            tier,
            states: HSet::default(),
            nstates_overflow: 0,
            outcomes: HSet::default(),
            transitions: 0,
            validated: 0,
            skipped: 0,
            execs: 0,
            verbose: false,
            want_desc: false,
            desc: vec![],
            fails: vec![],
            counters: BTreeMap::new(),
        }
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    /// One nondeterministic choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        if n == 0 {
            panic!("HARNESS: empty choice");
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("HARNESS: replay divergence at choice {} ({} of {})", i, c, n);
        }
        if i < self.expect.len() && self.expect[i] != n as u32 {
            panic!("HARNESS: nondeterministic body: choice {} had {} alternatives, now {}", i, self.expect[i], n);
        }
        self.trace.push((c, n as u32));
        self.transitions += 1;
        c as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    /// A state (program + environment) that has been visited.
    pub fn state<T: Hash>(&mut self, t: T) {
        let h = h64(&(self.salt, h64(&t)));
        if self.states.len() < MAX_STATES_PER_WORKER {
            self.states.insert(h);
        } else if !self.states.contains(&h) {
            self.nstates_overflow += 1;
        }
    }
    /// `n` calls into the implementation.
    pub fn step(&mut self, n: u64) { self.transitions += n; }
    /// One model behaviour compared with the implementation.
    pub fn validated(&mut self) { self.validated += 1; }
    pub fn skipped(&mut self) { self.skipped += 1; }
    pub fn outcome<T: Hash>(&mut self, t: T) {
        if self.outcomes.len() < 1 << 20 {
            self.outcomes.insert(h64(&t));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(k.to_string(), n);
            },
        }
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc || self.verbose {
            let s = f();
            if self.verbose {
                say!("  {}", s);
            }
            if self.desc.len() < 4 {
                self.desc.push(s);
            }
        }
    }
    pub fn verbose(&self) -> bool { self.verbose }
    /// The property does not hold on this execution.  `sig` identifies what fails (it is what a
    /// known finding is matched by), `detail` explains it.
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let (s, d) = (sig.into(), detail.into());
        if self.fails.len() < 64 && !self.fails.iter().any(|f| f.0 == s) {
            self.fails.push((s, d));
        }
    }
    pub fn check(&mut self, ok: bool, f: impl FnOnce() -> (String, String)) {
        self.validated += 1;
        if !ok {
            let (s, d) = f();
            self.fail(s, d);
        }
    }
}

pub type Body = Box<dyn Fn(&mut Ctl) + Sync + Send>;

pub struct Suite {
    pub name: String,
    pub bound: String,
    pub body: Body,
}

pub struct Check {
    pub id: &'static str,
    pub suites: Vec<Suite>,
    pub assumptions: Vec<String>,
    pub tier: Tier,
}

// ------------------------------------------------------------------ panics
thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", m, l));
    }));
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

/// Run `f`, turning a panic into Err(message).  Harness errors (divergence, ...) are re-raised.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = last_panic();
            if m.starts_with("HARNESS") {
                std::panic::resume_unwind(e);
            }
            Err(m)
        },
    }
}

// ------------------------------------------------------------------ known findings
#[derive(Clone, Debug)]
struct Known {
    id: String,
    what: String,
    sigs: Vec<String>,
}

fn verif_dir() -> String { std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()) }

fn load_known(id: &str) -> Vec<Known> {
    let p = format!("{}/known_findings.jsonl", verif_dir());
    let mut out = vec![];
    for l in std::fs::read_to_string(&p).unwrap_or_default().lines() {
        if l.trim().is_empty() {
            continue;
        }
        let v: serde_json::Value = match serde_json::from_str(l) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("HARNESS: bad line in {}: {}", p, e);
                std::process::exit(2);
            },
        };
        if v["status"] == "known" && v["property"] == id {
            out.push(Known {
                id: v["id"].as_str().unwrap_or("?").into(),
                what: v["what"].as_str().unwrap_or("?").into(),
                sigs: v["signatures"].as_array().map(|a| a.iter().filter_map(|s| s.as_str().map(String::from)).collect()).unwrap_or_default(),
            });
        }
    }
    out
}

// ------------------------------------------------------------------ exploring one suite
struct SuiteResult {
    name: String,
    bound: String,
    execs: u64,
    states: u64,
    transitions: u64,
    validated: u64,
    skipped: u64,
    outcomes: u64,
    complete: bool,
    wall: f64,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
}

struct Shared {
    queue: Mutex<VecDeque<Vec<(u32, u32)>>>,
    qlen: AtomicUsize,
    busy: AtomicUsize,
    stop: AtomicBool,
    execs: AtomicU64,
    fails: Mutex<BTreeMap<String, Violation>>,
    harness_err: Mutex<Option<String>>,
    beats: Vec<(AtomicU64, Mutex<Vec<u32>>)>,
    samples: Mutex<Vec<String>>,
}

/// Run the body once with the given prefix; returns the complete choice trace.
fn run_once(ctl: &mut Ctl, suite: &Suite, prefix: Vec<u32>, expect: Vec<u32>, sh: Option<&Shared>) -> Result<(), String> {
    ctl.prefix = prefix;
    ctl.expect = expect;
    ctl.trace.clear();
    ctl.fails.clear();
    ctl.execs += 1;
    let r = catch_unwind(AssertUnwindSafe(|| (suite.body)(ctl)));
    if r.is_err() {
        let m = last_panic();
        if m.starts_with("HARNESS") {
            return Err(m);
        }
        ctl.fails.push((format!("panic: {}", m.split(" @ ").next().unwrap_or("")), format!("the implementation panicked: {}", m)));
    }
    if let Some(sh) = sh {
        if !ctl.fails.is_empty() {
            let choices: Vec<u32> = ctl.trace.iter().map(|c| c.0).collect();
            let mut f = sh.fails.lock().unwrap();
            for (sig, detail) in ctl.fails.drain(..) {
                let v = Violation { suite: suite.name.clone(), sig: sig.clone(), detail, choices: choices.clone() };
                match f.get_mut(&sig) {
                    None => {
                        if f.len() < 20000 {
                            f.insert(sig, v);
                        } else {
                            sh.stop.store(true, SeqCst);
                        }
                    },
                    Some(old) => {
                        // keep the shortest / smallest counterexample
                        if (v.choices.len(), &v.choices) < (old.choices.len(), &old.choices) {
                            *old = v;
                        }
                    },
                }
            }
        }
    }
    Ok(())
}

fn explore(suite: &Suite, tier: Tier, seed: u64, nthreads: usize, journal: Option<&str>, deadline: Instant) -> Result<(SuiteResult, Vec<Violation>), String> {
    let t0 = Instant::now();
    let salt = h64(&suite.name);
    let sh = Arc::new(Shared {
        queue: Mutex::new(VecDeque::from(vec![vec![]])),
        qlen: AtomicUsize::new(1),
        busy: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        execs: AtomicU64::new(0),
        fails: Mutex::new(BTreeMap::new()),
        harness_err: Mutex::new(None),
        beats: (0..nthreads).map(|_| (AtomicU64::new(0), Mutex::new(vec![]))).collect(),
        samples: Mutex::new(vec![]),
    });
    let timed_out = AtomicBool::new(false);
    let start = Instant::now();
    let results: Vec<Ctl> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..nthreads)
            .map(|w| {
                let sh = sh.clone();
                let timed_out = &timed_out;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut ctl = Ctl::new(salt, tier);
                        let mut jf = journal.map(|p| std::fs::OpenOptions::new().create(true).write(true).open(p).unwrap());
                        'outer: loop {
                            let job = {
                                let mut q = sh.queue.lock().unwrap();
                                let j = q.pop_back();
                                sh.qlen.store(q.len(), SeqCst);
                                if j.is_some() {
                                    sh.busy.fetch_add(1, SeqCst);
                                }
                                j
                            };
                            let job = match job {
                                Some(j) => j,
                                None => {
                                    if sh.busy.load(SeqCst) == 0 && sh.queue.lock().unwrap().is_empty() || sh.stop.load(SeqCst) {
                                        break 'outer;
                                    }
                                    std::thread::sleep(Duration::from_micros(50));
                                    continue;
                                },
                            };
                            let fixed = job.len();
                            let mut floor = fixed;
                            let mut pfx: Vec<u32> = job.iter().map(|c| c.0).collect();
                            let mut exp: Vec<u32> = job.iter().map(|c| c.1).collect();
                            loop {
                                let n = sh.execs.fetch_add(1, SeqCst);
                                ctl.want_desc = n < 2 || (n + seed * 7919) % 9973 == 0;
                                if let Some(f) = jf.as_mut() {
                                    use std::io::{Seek, SeekFrom};
                                    let line = format!("{} {:?}\n", pfx.len(), pfx);
                                    let _ = f.seek(SeekFrom::Start(0));
                                    let _ = f.write_all(line.as_bytes());
                                } else {
                                    sh.beats[w].0.store(start.elapsed().as_millis() as u64 + 1, SeqCst);
                                    sh.beats[w].1.lock().unwrap().clone_from(&pfx);
                                }
                                if let Err(m) = run_once(&mut ctl, suite, pfx.clone(), exp.clone(), Some(&sh)) {
                                    *sh.harness_err.lock().unwrap() = Some(m);
                                    sh.stop.store(true, SeqCst);
                                    sh.busy.fetch_sub(1, SeqCst);
                                    break 'outer;
                                }
                                sh.beats[w].0.store(0, SeqCst);
                                if ctl.want_desc && !ctl.desc.is_empty() {
                                    let mut s = sh.samples.lock().unwrap();
                                    if s.len() < 6 {
                                        s.append(&mut ctl.desc);
                                    }
                                    ctl.desc.clear();
                                }
                                if n % 64 == 0 && Instant::now() > deadline {
                                    timed_out.store(true, SeqCst);
                                    sh.stop.store(true, SeqCst);
                                }
                                if sh.stop.load(SeqCst) {
                                    sh.busy.fetch_sub(1, SeqCst);
                                    break 'outer;
                                }
                                let tr = ctl.trace.clone();
                                // Donate untried alternatives at the shallowest open choice if others are hungry.
                                if nthreads > 1 {
                                    let hungry = sh.qlen.load(SeqCst) < nthreads;
                                    if hungry {
                                        if let Some(i) = (floor..tr.len()).find(|&i| tr[i].0 + 1 < tr[i].1) {
                                            let mut q = sh.queue.lock().unwrap();
                                            for alt in (tr[i].0 + 1)..tr[i].1 {
                                                let mut p: Vec<(u32, u32)> = tr[..i].to_vec();
                                                p.push((alt, tr[i].1));
                                                q.push_front(p);
                                            }
                                            sh.qlen.store(q.len(), SeqCst);
                                            floor = i + 1;
                                        } else {
                                            floor = tr.len();
                                        }
                                    }
                                }
                                // next choice vector in depth-first order
                                let mut i = tr.len();
                                let mut next = None;
                                while i > floor {
                                    i -= 1;
                                    if tr[i].0 + 1 < tr[i].1 {
                                        next = Some(i);
                                        break;
                                    }
                                }
                                match next {
                                    None => break,
                                    Some(i) => {
                                        pfx = tr[..i].iter().map(|c| c.0).collect();
                                        pfx.push(tr[i].0 + 1);
                                        exp = tr[..=i].iter().map(|c| c.1).collect();
                                    },
                                }
                            }
                            sh.busy.fetch_sub(1, SeqCst);
                        }
                        ctl
                    })
                    .unwrap()
            })
            .collect();
        // watchdog: a single execution must not run for more than 60 s
        if journal.is_none() {
            loop {
                if handles.iter().all(|h| h.is_finished()) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(2));
                let now = start.elapsed().as_millis() as u64;
                for b in &sh.beats {
                    let t = b.0.load(SeqCst);
                    if t != 0 && now > t + 60_000 {
                        let pfx = b.1.lock().unwrap().clone();
                        say!("HANG suite={} choices={:?}", suite.name, pfx);
                        report_abnormal(&suite.name, "does not terminate", &pfx);
                    }
                }
            }
        }
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if let Some(m) = sh.harness_err.lock().unwrap().take() {
        return Err(m);
    }
    let mut st = HSet::default();
    let mut oc = HSet::default();
    let mut r = SuiteResult {
        name: suite.name.clone(),
        bound: suite.bound.clone(),
        execs: 0,
        states: 0,
        transitions: 0,
        validated: 0,
        skipped: 0,
        outcomes: 0,
        complete: !sh.stop.load(SeqCst) && !timed_out.load(SeqCst),
        wall: 0.0,
        samples: sh.samples.lock().unwrap().clone(),
        counters: BTreeMap::new(),
    };
    let mut overflow = 0;
    for c in results {
        r.execs += c.execs;
        r.transitions += c.transitions;
        r.validated += c.validated;
        r.skipped += c.skipped;
        overflow += c.nstates_overflow;
        if st.is_empty() {
            st = c.states;
        } else {
            st.extend(c.states);
        }
        oc.extend(c.outcomes);
        for (k, v) in c.counters {
            *r.counters.entry(k).or_default() += v;
        }
    }
    r.states = st.len() as u64;
    if overflow > 0 {
        r.counters.insert("states beyond the counting table (not counted)".into(), overflow);
    }
    r.outcomes = oc.len() as u64;
    r.wall = t0.elapsed().as_secs_f64();
    let v = sh.fails.lock().unwrap().values().cloned().collect();
    Ok((r, v))
}

static PROP: Mutex<String> = Mutex::new(String::new());

fn write_replay(id: &str, suite: &str, sig: &str, detail: &str, choices: &[u32]) -> String {
    let dir = format!("{}/out", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let h = h64(&(suite, sig));
    let path = format!("{}/{}-{:016x}.replay.json", dir, id, h);
    let v = serde_json::json!({
        "property": id, "suite": suite, "signature": sig, "detail": detail, "choices": choices,
        "how": format!("./check {} --replay {}", id, path),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn report_abnormal(suite: &str, what: &str, choices: &[u32]) -> ! {
    let id = PROP.lock().unwrap().clone();
    let p = write_replay(&id, suite, what, what, choices);
    say!("VIOLATION property={} replay={}", id, p);
    say!("  {}", what);
    std::process::exit(1);
}

/// The library behind the special functions prints its complaints; they must not end up in the
/// middle of a line of ours.
fn mute_c() {
    extern "C" {
        fn fopen(p: *const i8, m: *const i8) -> *mut u8;
        static mut stdout: *mut u8;
    }
    unsafe {
        let f = fopen(b"/dev/null\0".as_ptr() as _, b"w\0".as_ptr() as _);
        if !f.is_null() {
            stdout = f;
        }
    }
}

impl Check {
    pub fn new(id: &'static str) -> Check {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        mute_c();
        Check { id, suites: vec![], assumptions: vec![], tier }
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    pub fn assume(&mut self, s: &str) -> &mut Self {
        self.assumptions.push(s.into());
        self
    }
    pub fn suite(&mut self, name: impl Into<String>, bound: impl Into<String>, body: impl Fn(&mut Ctl) + Sync + Send + 'static) -> &mut Self {
        self.suites.push(Suite { name: name.into(), bound: bound.into(), body: Box::new(body) });
        self
    }

    /// Explore everything, write the evidence, print the verdict, exit.
    pub fn run(&mut self) -> ! {
        *PROP.lock().unwrap() = self.id.to_string();
        let args: Vec<String> = std::env::args().collect();
        quiet_panics();
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            self.replay(&args[i + 1]);
        }
        if let Some(i) = args.iter().position(|a| a == "--journal") {
            let only = args.get(i + 2).cloned();
            self.explore_all(Some(args[i + 1].clone()), only);
        }
        if std::env::var("MC_CHILD").is_ok() {
            mute_stdout();
        }
        // Run the exploration in a child so that an abort or stack overflow of the code under
        // test becomes a verdict instead of killing the check.
        if std::env::var("MC_CHILD").is_err() {
            let exe = std::env::current_exe().unwrap();
            let st = std::process::Command::new(&exe).args(&args[1..]).env("MC_CHILD", "1").status();
            match st {
                Ok(s) if s.code().is_some() => std::process::exit(s.code().unwrap()),
                Ok(s) => {
                    say!("exploration ended abnormally ({}); locating the execution", s);
                    let dir = format!("{}/out", verif_dir());
                    let _ = std::fs::create_dir_all(&dir);
                    let j = format!("{}/{}.journal", dir, self.id);
                    let _ = std::fs::remove_file(&j);
                    for s in 0..self.suites.len() {
                        let name = self.suites[s].name.clone();
                        let _ = std::fs::remove_file(&j);
                        let mut ch = std::process::Command::new(&exe).arg("--journal").arg(&j).arg(&name).env("MC_CHILD", "1").stdout(std::process::Stdio::null()).spawn().unwrap();
                        let t = Instant::now();
                        let st = loop {
                            match ch.try_wait().unwrap() {
                                Some(s) => break Some(s),
                                None if t.elapsed() > Duration::from_secs(240) => {
                                    let _ = ch.kill();
                                    let _ = ch.wait();
                                    break None;
                                },
                                None => std::thread::sleep(Duration::from_millis(5)),
                            }
                        };
                        let crashed = matches!(st, Some(s) if s.code().is_none());
                        if crashed {
                            let txt = std::fs::read(&j).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
                            let choices = parse_choices(&txt);
                            report_abnormal(&name, &format!("the implementation aborts the process ({})", st.unwrap()), &choices);
                        }
                    }
                    eprintln!("HARNESS: abnormal end could not be reproduced");
                    std::process::exit(2);
                },
                Err(e) => {
                    eprintln!("HARNESS: cannot run child: {}", e);
                    std::process::exit(2);
                },
            }
        }
        self.explore_all(None, None)
    }

    fn replay(&mut self, path: &str) -> ! {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
        let sname = v["suite"].as_str().unwrap();
        let choices: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let s = self.suites.iter().find(|s| s.name == sname).expect("no such suite");
        say!("replaying {} suite {} choices {:?}", self.id, sname, choices);
        let mut sigs = vec![];
        for round in 0..2 {
            let mut ctl = Ctl::new(0, self.tier);
            ctl.verbose = round == 0;
            if let Err(m) = run_once(&mut ctl, s, choices.clone(), vec![], None) {
                say!("{}", m);
                std::process::exit(2);
            }
            sigs.push(ctl.fails.clone());
        }
        if sigs[0] != sigs[1] {
            say!("HARNESS: the replay is not deterministic: {:?} vs {:?}", sigs[0], sigs[1]);
            std::process::exit(2);
        }
        for f in &sigs[0] {
            say!("reproduced: {}\n   {}", f.0, f.1);
        }
        if sigs[0].is_empty() {
            say!("no violation on this execution");
        }
        std::process::exit(if sigs[0].is_empty() { 0 } else { 1 });
    }

    fn explore_all(&mut self, journal: Option<String>, only: Option<String>) -> ! {
        let t0 = Instant::now();
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let limit = std::env::var("MC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if self.tier == Tier::Quick { 600u64 } else { 7200 });
        let deadline = t0 + Duration::from_secs(limit);
        let nthreads = if journal.is_some() { 1 } else { std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8) };
        let only = only.or_else(|| std::env::var("MC_SUITE").ok());
        let mut results = vec![];
        let mut viols: Vec<Violation> = vec![];
        for s in &self.suites {
            if let Some(o) = &only {
                if !s.name.starts_with(o.as_str()) {
                    continue;
                }
            }
            match explore(s, self.tier, seed, nthreads, journal.as_deref(), deadline) {
                Ok((r, v)) => {
                    say!(
                        "{} [{}] {}: executions={} states={} transitions={} compared={} skipped={} outcomes={} {} {:.1}s",
                        self.id, r.name, r.bound, r.execs, r.states, r.transitions, r.validated, r.skipped, r.outcomes,
                        if r.complete { "complete" } else { "INCOMPLETE" }, r.wall
                    );
                    for (k, n) in &r.counters {
                        say!("    {}: {}", k, n);
                    }
                    results.push(r);
                    viols.extend(v);
                },
                Err(m) => {
                    eprintln!("{}: suite {}: {}", self.id, s.name, m);
                    std::process::exit(2);
                },
            }
        }
        // verdict
        let known = load_known(self.id);
        let mut hit: BTreeMap<usize, usize> = BTreeMap::new();
        let mut fresh: Vec<&Violation> = vec![];
        for v in &viols {
            match known.iter().position(|k| k.sigs.iter().any(|s| *s == v.sig)) {
                Some(k) => *hit.entry(k).or_default() += 1,
                None => fresh.push(v),
            }
        }
        for (k, n) in &hit {
            say!("KNOWN-FINDING: property={} {} {} ({} listed signature(s) observed)", self.id, known[*k].id, known[*k].what, n);
        }
        fresh.sort_by_key(|v| (v.choices.len(), v.sig.len(), v.sig.clone()));
        for (i, v) in fresh.iter().enumerate() {
            if i < 12 {
                let p = write_replay(self.id, &v.suite, &v.sig, &v.detail, &v.choices);
                say!("VIOLATION property={} replay={}", self.id, p);
                say!("  [{}] {}\n    {}", v.suite, v.sig, v.detail);
            }
        }
        if fresh.len() > 12 {
            say!("  ... and {} more distinct signatures", fresh.len() - 12);
        }
        if let Ok(p) = std::env::var("MC_DUMP_SIGS") {
            let mut f = std::fs::File::create(p).unwrap();
            for v in &viols {
                writeln!(f, "{}", serde_json::json!({"suite": v.suite, "sig": v.sig, "detail": v.detail})).unwrap();
            }
        }
        let complete = results.iter().all(|r| r.complete) && only.is_none();
        let sum = |f: fn(&SuiteResult) -> u64| results.iter().map(f).sum::<u64>();
        let samples: Vec<String> = results.iter().flat_map(|r| r.samples.iter().take(2).map(move |s| format!("[{}] {}", r.name, s))).take(24).collect();
        let suites: Vec<serde_json::Value> = results
            .iter()
            .map(|r| {
                serde_json::json!({"suite": r.name, "bound": r.bound, "executions": r.execs, "states": r.states, "transitions": r.transitions,
                    "compared": r.validated, "outside_domain": r.skipped, "distinct_outcomes": r.outcomes, "complete": r.complete, "wall_s": r.wall, "counters": r.counters})
            })
            .collect();
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": sum(|r| r.states),
                "transitions": sum(|r| r.transitions),
                "traces_validated_against_impl": sum(|r| r.validated),
                "executions": sum(|r| r.execs),
                "outside_domain": sum(|r| r.skipped),
                "exhaustive": complete,
                "suites": suites,
                "samples": samples,
                "known_findings_observed": hit.iter().map(|(k, n)| serde_json::json!({"id": known[*k].id, "signatures": n})).collect::<Vec<_>>(),
            },
            "assumptions": self.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        if journal.is_none() {
            if let Err(e) = std::fs::write(format!("{}/{}.json", dir, self.id), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
                eprintln!("HARNESS: cannot write evidence: {}", e);
                std::process::exit(2);
            }
        }
        say!(
            "{} {} states={} transitions={} compared={} wall={:.1}s: {}",
            self.id, if complete { "complete within the stated bounds" } else { "INCOMPLETE (see the suite lines)" },
            sum(|r| r.states), sum(|r| r.transitions), sum(|r| r.validated), t0.elapsed().as_secs_f64(),
            if fresh.is_empty() { "holds" } else { "VIOLATED" }
        );
        std::process::exit(if fresh.is_empty() { 0 } else { 1 });
    }
}

fn parse_choices(txt: &str) -> Vec<u32> {
    let n: usize = txt.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(0);
    let body = txt.splitn(2, '[').nth(1).unwrap_or("");
    let body = body.split(']').next().unwrap_or("");
    let v: Vec<u32> = body.split(',').filter_map(|s| s.trim().parse().ok()).collect();
    v.into_iter().take(n).collect()
}
