//! Stateless explicit exploration: a driver is run once for every sequence of answers to `choose`.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type StateSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
    }
    h
}

/// One violation of the property being checked.
#[derive(Clone, Debug)]
pub struct Violation {
    pub driver: String,
    pub choices: Vec<u32>,
    pub message: String,
    pub trace: Vec<String>,
}

/// Refers to one execution being run by a driver.
pub struct Ctx {
    prefix: Vec<u32>,
    taken: Vec<u32>,
    arity: Vec<u32>,
    recording: bool,
    trace: Vec<String>,
    pub transitions: u64,
    obs: u64,
    states: StateSet,
    states_capped: bool,
    /// driver-specific counters shown in the evidence (name -> count)
    pub counters: Vec<(&'static str, u64)>,
    pub scratch: Option<std::path::PathBuf>,
    /// deviating answers given to system calls in this execution
    pub deviations: usize,
    diverged: bool,
    /// where the choices of the execution under way are noted for the supervising process (0: nowhere)
    slot: usize,
}
/// Shared with the supervising process: which executions were under way when this process died.
pub static JOURNAL: AtomicUsize = AtomicUsize::new(0);
pub const SLOTS: usize = 64;
/// words of a slot: under way, driver, number of choices, the choices
pub const SLOT_WORDS: usize = 4096;
static DRIVER: AtomicUsize = AtomicUsize::new(0);
const STATE_CAP: usize = 3_000_000;

impl Ctx {
    fn new(scratch: Option<std::path::PathBuf>) -> Ctx {
        Ctx {
            prefix: vec![],
            taken: vec![],
            arity: vec![],
            recording: false,
            trace: vec![],
            transitions: 0,
            obs: 0,
            states: StateSet::default(),
            states_capped: false,
            counters: vec![],
            scratch,
            deviations: 0,
            diverged: false,
            slot: 0,
        }
    }
    fn note(&self, at: usize, v: u32) {
        if self.slot != 0 && at < SLOT_WORDS {
            // the slot belongs to this execution alone, and the map lives as long as the process
            unsafe { std::ptr::write_volatile((self.slot as *mut u32).add(at), v) };
        }
    }
    /// A nondeterministic choice among 0..n: the engine explores every answer.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let p = self.taken.len();
        let mut c = if p < self.prefix.len() { self.prefix[p] } else { 0 };
        if c as usize >= n {
            // the implementation asks for something else than the last time it got the same answers
            self.diverged = true;
            c = n as u32 - 1;
        }
        self.note(3 + p, c);
        self.note(2, p as u32 + 1);
        self.taken.push(c);
        self.arity.push(n as u32);
        c as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    /// Inclusive integer range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        if self.recording {
            let s = f();
            self.trace.push(s);
        }
    }
    /// One transition of the implementation was executed.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// The observable state after a step (or the result of the step), as a hash.
    pub fn observe(&mut self, h: u64) {
        self.obs = mix(self.obs, h);
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        } else {
            self.states_capped = true;
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        for c in &mut self.counters {
            if c.0 == name {
                c.1 += n;
                return;
            }
        }
        self.counters.push((name, n));
    }
}

pub type Body = Box<dyn Fn(&mut Ctx) -> Result<(), String> + Sync + Send>;
pub struct Driver {
    pub name: String,
    pub bounds: String,
    pub body: Body,
    pub threads: usize,
}
impl Driver {
    pub fn new<F: Fn(&mut Ctx) -> Result<(), String> + Sync + Send + 'static>(
        name: &str,
        bounds: &str,
        f: F,
    ) -> Driver {
        Driver { name: name.into(), bounds: bounds.into(), body: Box::new(f), threads: 8 }
    }
    /// For executions that mostly wait for other threads or processes.
    pub fn waiting(mut self) -> Driver {
        self.threads = 32;
        self
    }
}

#[derive(Default, Debug)]
pub struct Report {
    pub executions: u64,
    pub transitions: u64,
    pub choice_points: u64,
    pub states: u64,
    pub states_capped: bool,
    pub distinct_outcomes: u64,
    pub max_depth: usize,
    pub counters: Vec<(String, u64)>,
    pub samples: Vec<(Vec<u32>, Vec<String>)>,
    pub violation: Option<Violation>,
    pub error: Option<String>,
    pub wall: f64,
    pub replayed_twice: u64,
    pub unrepeatable: u64,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static QUIET: Cell<bool> = Cell::new(true);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome {
    Ok,
    Violation(String),
    HarnessError(String),
}

fn run_one(body: &Body, ctx: &mut Ctx, prefix: Vec<u32>) -> Outcome {
    ctx.prefix = prefix;
    ctx.taken.clear();
    ctx.arity.clear();
    ctx.trace.clear();
    ctx.obs = 0;
    ctx.diverged = false;
    ctx.deviations = 0;
    ctx.note(1, DRIVER.load(Ordering::Relaxed) as u32);
    ctx.note(2, 0);
    ctx.note(0, 1);
    let r = catch_unwind(AssertUnwindSafe(|| body(ctx)));
    ctx.note(0, 0);
    if ctx.diverged || (matches!(r, Ok(Ok(()))) && ctx.taken.len() < ctx.prefix.len()) {
        // Judged like any other execution; the coverage claim is qualified by the count.
        ctx.count("executions whose choices did not repeat", 1);
    }
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => {
            if let Some(m) = m.strip_prefix("HARNESS:") {
                Outcome::HarnessError(m.to_string())
            } else {
                Outcome::Violation(m)
            }
        }
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "?".into()));
            // the harness's own files are compiled with paths relative to its crate ("src/...")
            if loc.starts_with("src/") {
                Outcome::HarnessError(format!("harness panic at {}: {}", loc, msg))
            } else {
                Outcome::Violation(format!("the library panicked at {}: {}", loc, msg))
            }
        }
    }
}

/// Runs f, a panic in it becomes an error naming its place.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| ("?".into(), "?".into()));
        let who = if loc.starts_with("src/") { "harness panic" } else { "the library panicked" };
        format!("{} at {}: {}", who, loc, msg)
    })
}

/// Runs one recorded execution; used for replay, samples and violation traces.
pub fn run_recorded(d: &Driver, choices: &[u32], scratch: Option<std::path::PathBuf>) -> (Outcome, Vec<String>, u64) {
    let mut ctx = Ctx::new(scratch);
    ctx.recording = true;
    let o = run_one(&d.body, &mut ctx, choices.to_vec());
    (o, ctx.trace, ctx.obs)
}

pub const HANG_SECS: u64 = 120;

pub fn explore(d: &Driver, index: usize, scratch_root: &std::path::Path, wall_cap: Duration) -> Report {
    let nthreads = d.threads;
    DRIVER.store(index, Ordering::Relaxed);
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let idle = AtomicUsize::new(0);
    let shared: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let shared_len = AtomicUsize::new(1);
    let found: Mutex<Vec<(Vec<u32>, String)>> = Mutex::new(vec![]);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let merged: Mutex<(Report, StateSet, StateSet)> =
        Mutex::new((Report::default(), StateSet::default(), StateSet::default()));
    let beats: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<Mutex<Vec<u32>>> = (0..nthreads).map(|_| Mutex::new(vec![])).collect();
    let done = AtomicUsize::new(0);

    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (stop, idle, shared, shared_len, found, error, merged, beats, current, done) = (
                &stop, &idle, &shared, &shared_len, &found, &error, &merged, &beats, &current, &done,
            );
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let scratch = scratch_root.join(format!("t{}", t));
                std::fs::create_dir_all(&scratch).expect("scratch");
                let mut ctx = Ctx::new(Some(scratch));
                let journal = JOURNAL.load(Ordering::Relaxed);
                if journal != 0 && t < SLOTS {
                    ctx.slot = journal + t * SLOT_WORDS * 4;
                }
                let mut local: Vec<Vec<u32>> = vec![];
                let mut rep = Report::default();
                let mut outcomes = StateSet::default();
                let mut sample_at = 1u64;
                'outer: loop {
                    let prefix = match local.pop() {
                        Some(p) => p,
                        None => {
                            idle.fetch_add(1, Ordering::SeqCst);
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                let mut q = shared.lock().unwrap();
                                if let Some(p) = q.pop() {
                                    shared_len.store(q.len(), Ordering::Relaxed);
                                    idle.fetch_sub(1, Ordering::SeqCst);
                                    drop(q);
                                    break p;
                                }
                                if idle.load(Ordering::SeqCst) == nthreads {
                                    break 'outer;
                                }
                                drop(q);
                                std::thread::sleep(Duration::from_micros(50));
                            }
                        }
                    };
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let plen = prefix.len();
                    beats[t].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    {
                        let mut c = current[t].lock().unwrap();
                        c.clear();
                        c.extend_from_slice(&prefix);
                    }
                    let out = run_one(&d.body, &mut ctx, prefix);
                    beats[t].store(0, Ordering::Relaxed);
                    rep.executions += 1;
                    rep.choice_points += ctx.taken.len() as u64;
                    rep.max_depth = rep.max_depth.max(ctx.taken.len());
                    if outcomes.len() < STATE_CAP {
                        outcomes.insert(ctx.obs);
                    }
                    match out {
                        Outcome::Ok => {}
                        Outcome::Violation(m) => {
                            found.lock().unwrap().push((ctx.taken.clone(), m));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        Outcome::HarnessError(m) => {
                            *error.lock().unwrap() = Some(m);
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    if rep.executions == sample_at && rep.samples.len() < 4 {
                        sample_at = sample_at * 7 + 3;
                        rep.samples.push((ctx.taken.clone(), vec![format!("{:x}", ctx.obs)]));
                    }
                    for i in plen..ctx.taken.len() {
                        for alt in 1..ctx.arity[i] {
                            let mut p = ctx.taken[..i].to_vec();
                            p.push(alt);
                            local.push(p);
                        }
                    }
                    if local.len() > 1
                        && idle.load(Ordering::Relaxed) > 0
                        && shared_len.load(Ordering::Relaxed) < 4 * nthreads
                    {
                        // share the shallowest half
                        let n = local.len() / 2;
                        let mut q = shared.lock().unwrap();
                        q.extend(local.drain(..n));
                        shared_len.store(q.len(), Ordering::Relaxed);
                    }
                    if rep.executions % 256 == 0 && start.elapsed() > wall_cap {
                        *error.lock().unwrap() = Some(format!(
                            "wall cap of {:?} reached before the space was exhausted",
                            wall_cap
                        ));
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                let mut m = merged.lock().unwrap();
                let r = &mut m.0;
                r.executions += rep.executions;
                r.transitions += ctx.transitions;
                r.choice_points += rep.choice_points;
                r.max_depth = r.max_depth.max(rep.max_depth);
                r.states_capped |= ctx.states_capped;
                r.samples.extend(rep.samples);
                for (n, c) in &ctx.counters {
                    match r.counters.iter_mut().find(|x| x.0 == *n) {
                        Some(x) => x.1 += c,
                        None => r.counters.push((n.to_string(), *c)),
                    }
                }
                m.1.extend(ctx.states.iter());
                m.2.extend(outcomes.iter());
                done.fetch_add(1, Ordering::SeqCst);
            }).expect("spawn");
        }
        // watchdog: an execution that does not come back is a violation, not an endless run
        let (stop, beats, current, done) = (&stop, &beats, &current, &done);
        s.spawn(move || loop {
            if done.load(Ordering::SeqCst) == nthreads {
                return;
            }
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for t in 0..nthreads {
                let b = beats[t].load(Ordering::Relaxed);
                if b != 0 && now > b + HANG_SECS * 1000 && !stop.load(Ordering::Relaxed) {
                    let choices = current[t].lock().unwrap().clone();
                    crate::report::violation_and_exit(&Violation {
                        driver: d.name.clone(),
                        choices,
                        message: format!("an execution did not finish within {} s", HANG_SECS),
                        trace: vec![],
                    });
                }
            }
        });
    });

    let (mut r, st, oc) = merged.into_inner().unwrap();
    r.states = st.len() as u64;
    r.distinct_outcomes = oc.len() as u64;
    r.error = error.into_inner().unwrap();
    let mut f = found.into_inner().unwrap();
    f.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    let sc = scratch_root.join("replay");
    std::fs::create_dir_all(&sc).expect("scratch");
    if let Some((choices, message)) = f.into_iter().next() {
        // replay twice: a failure that does not repeat is an error of the harness
        let (o1, trace, h1) = run_recorded(d, &choices, Some(sc.clone()));
        let (o2, _, h2) = run_recorded(d, &choices, Some(sc.clone()));
        match (o1, o2) {
            (Outcome::Violation(m1), Outcome::Violation(_)) if h1 == h2 => {
                r.violation = Some(Violation { driver: d.name.clone(), choices, message: m1, trace });
            }
            _ => {
                // Hidden state survives between executions: the library itself carries state from one
                // execution to the next. The first report stands, with that remark.
                r.violation = Some(Violation {
                    driver: d.name.clone(),
                    choices,
                    message: format!("{} (only seen after other executions in the same process: state is carried across independent objects)", message),
                    trace,
                });
            }
        }
    } else if r.error.is_none() {
        r.samples.sort();
        let n = r.samples.len();
        let keep: Vec<_> = if n > 4 {
            vec![0, n / 3, 2 * n / 3, n - 1].into_iter().map(|i| r.samples[i].clone()).collect()
        } else {
            r.samples.clone()
        };
        r.samples.clear();
        for (c, h) in keep {
            let (o, trace, h1) = run_recorded(d, &c, Some(sc.clone()));
            let (_, _, h2) = run_recorded(d, &c, Some(sc.clone()));
            match o {
                Outcome::Ok => {}
                // an execution that held before and does not now: state is carried from one to the next
                Outcome::Violation(message) => {
                    let message = format!("{} (held when first executed: state is carried across independent objects)", message);
                    r.violation = Some(Violation { driver: d.name.clone(), choices: c, message, trace });
                    break;
                }
                Outcome::HarnessError(m) => {
                    r.error = Some(m);
                    break;
                }
            }
            if h1 != h2 || format!("{:x}", h1) != h[0] {
                // allowed results differ from run to run: judged, but the execution is not a repeatable sample
                r.unrepeatable += 1;
                continue;
            }
            r.replayed_twice += 1;
            r.samples.push((c, trace));
        }
    }
    r.wall = start.elapsed().as_secs_f64();
    r
}
