//! The exploration engine: cases are closed systems explored exhaustively;
//! a case enumerates its choices depth first on the real code.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// FNV-1a with a final mix: stable between runs and processes.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.0 = (self.0 ^ u64::from_le_bytes(b) ^ ((c.len() as u64) << 56))
                .wrapping_mul(0x9e37_79b9_7f4a_7c15)
                .rotate_left(29)
                .wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default, Clone)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
type USet = HashSet<u64, BuildHasherDefault<IdH>>;

/// Enumerates a finite tree of choices depth first.
#[derive(Default)]
pub struct Chooser {
    path: Vec<(usize, usize)>,
    pos: usize,
}
impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: empty choice");
        if self.pos == self.path.len() {
            self.path.push((0, n));
        }
        let (c, m) = self.path[self.pos];
        if m != n {
            panic!(
                "harness: divergence while replaying a prefix ({} vs {})",
                m, n
            );
        }
        self.pos += 1;
        c
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    fn advance(&mut self) -> bool {
        self.path.truncate(self.pos);
        self.pos = 0;
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return true;
            }
        }
        false
    }
    pub fn taken(&self) -> Vec<usize> {
        self.path[..self.pos].iter().map(|x| x.0).collect()
    }
}

#[derive(Default)]
pub struct Stats {
    states: USet,
    states_counted: u64,
    transitions: u64,
    traces: u64,
    outcomes: USet,
    samples: Vec<String>,
    executions: u64,
}

pub struct Case {
    pub name: String,
    pub tier: Tier,
    pub seed: u64,
    salt: u64,
    st: Stats,
    forced: Option<Vec<usize>>,
    at: Option<Vec<usize>>,
}
impl Case {
    /// Records one state of the explored system (canonical hash).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = h64(&(self.salt, h64(t)));
        self.st.states.insert(h);
    }
    /// Adds states that are distinct by construction of the enumeration.
    pub fn states_by_construction(&mut self, n: u64) {
        self.st.states_counted += n;
    }
    /// Records steps of the real code that were taken and judged.
    pub fn steps(&mut self, n: u64) {
        self.st.transitions += n;
    }
    /// One complete execution agreed with the reference model.
    pub fn trace(&mut self) {
        self.st.traces += 1;
    }
    pub fn traces(&mut self, n: u64) {
        self.st.traces += n;
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.st.outcomes.len() < 1_000_000 {
            self.st.outcomes.insert(h64(t));
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.st.samples.len() < 2 {
            self.st.samples.push(s);
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Runs `f` on every path of its choice tree.
    pub fn explore<F>(&mut self, mut f: F) -> R
    where
        F: FnMut(&mut Case, &mut Chooser) -> R,
    {
        let mut ch = Chooser::default();
        if let Some(p) = &self.forced {
            ch.path = p.iter().map(|&c| (c, usize::MAX)).collect();
            // The arity is not recorded: accept whatever the code asks for.
            let forced = p.clone();
            let mut replay = Chooser::default();
            let mut arities: Vec<usize> = vec![];
            loop {
                // Grow the path one choice at a time, each with its real arity.
                replay.path = arities
                    .iter()
                    .enumerate()
                    .map(|(i, &n)| (*forced.get(i).unwrap_or(&0), n))
                    .collect();
                replay.pos = 0;
                let before = replay.path.len();
                let r = catch_unwind(AssertUnwindSafe(|| f(self, &mut replay)));
                if replay.path.len() > before && before < forced.len() {
                    arities.push(replay.path[before].1);
                    continue;
                }
                self.at = Some(replay.taken());
                return match r {
                    Ok(r) => r,
                    Err(e) => std::panic::resume_unwind(e),
                };
            }
        }
        loop {
            let r = catch_unwind(AssertUnwindSafe(|| f(self, &mut ch)));
            self.st.executions += 1;
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    self.at = Some(ch.taken());
                    return Err(e);
                }
                Err(e) => {
                    self.at = Some(ch.taken());
                    std::panic::resume_unwind(e);
                }
            }
            if !ch.advance() {
                return Ok(());
            }
        }
    }
}

pub type CaseFn = Box<dyn FnOnce(&mut Case) -> R + Send>;
pub struct Plan {
    pub tier: Tier,
    pub seed: u64,
    pub cases: Vec<(String, CaseFn)>,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    pub workers: usize,
    pub exhaustive: bool,
}
impl Plan {
    pub fn case<F>(&mut self, name: impl Into<String>, f: F)
    where
        F: FnOnce(&mut Case) -> R + Send + 'static,
    {
        self.cases.push((name.into(), Box::new(f)));
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}
/// True in the build with debug assertions and overflow checks.
pub fn checked_build() -> bool {
    cfg!(debug_assertions)
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

/// Runs `f`, turning a panic into `Err(description)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// Runs `f` on a thread of its own, so that thread-local generator state of
/// the code under test starts afresh. Panics are passed on as `Err`.
pub fn fresh<T: Send + 'static>(
    stream: u64,
    f: impl FnOnce() -> T + Send + 'static,
) -> Result<T, String> {
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            getrandom::set_thread_stream(stream);
            catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
        })
        .expect("harness: spawn");
    match h.join() {
        Ok(r) => r,
        Err(_) => Err("thread died".into()),
    }
}

#[derive(serde::Serialize)]
pub struct Violation {
    pub case: String,
    pub choices: Option<Vec<usize>>,
    pub message: String,
}

#[derive(serde::Serialize)]
pub struct Outcome {
    pub property: String,
    pub profile: String,
    pub cases: usize,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub executions: u64,
    pub distinct_outcomes: u64,
    pub samples: Vec<String>,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    pub violations: Vec<Violation>,
    pub skipped_cases: usize,
    pub timeouts: Vec<String>,
    pub wall_s: f64,
    pub slowest: Vec<(String, f64)>,
}

pub struct Opts {
    pub only: Option<String>,
    pub choices: Option<Vec<usize>>,
    pub case_wall: f64,
    pub journal: Option<String>,
}

pub fn run(prop: &str, plan: Plan, opts: &Opts) -> Outcome {
    let t0 = Instant::now();
    let tier = plan.tier;
    let seed = plan.seed;
    let mut names: HashMap<String, usize> = HashMap::new();
    for (n, _) in &plan.cases {
        *names.entry(n.clone()).or_default() += 1;
    }
    for (n, k) in &names {
        assert!(*k == 1, "harness: duplicate case name {}", n);
    }
    let total = plan.cases.len();
    let queue: VecDeque<(String, CaseFn)> = plan
        .cases
        .into_iter()
        .filter(|(n, _)| opts.only.as_ref().map_or(true, |o| o == n))
        .collect();
    if opts.only.is_some() && queue.is_empty() {
        eprintln!("no such case");
        std::process::exit(4);
    }
    let queue = Arc::new(Mutex::new(queue));
    let stats = Arc::new(Mutex::new(Stats::default()));
    let violations = Arc::new(Mutex::new(Vec::<Violation>::new()));
    let times = Arc::new(Mutex::new(Vec::<(String, f64)>::new()));
    let timeouts = Arc::new(Mutex::new(Vec::<String>::new()));
    let stop = Arc::new(AtomicBool::new(false));
    let ran = Arc::new(AtomicUsize::new(0));
    let running = Arc::new(Mutex::new(BTreeMap::<usize, String>::new()));
    let journal = opts.journal.clone();
    let workers = plan.workers.max(1);
    let mut hs = vec![];
    for w in 0..workers {
        let queue = queue.clone();
        let stats = stats.clone();
        let violations = violations.clone();
        let times = times.clone();
        let timeouts = timeouts.clone();
        let stop = stop.clone();
        let ran = ran.clone();
        let running = running.clone();
        let journal = journal.clone();
        let forced = opts.choices.clone();
        let case_wall = opts.case_wall;
        hs.push(std::thread::spawn(move || loop {
            if stop.load(Ordering::SeqCst) {
                break;
            }
            let (name, f) = match queue.lock().unwrap().pop_front() {
                Some(x) => x,
                None => break,
            };
            {
                let mut r = running.lock().unwrap();
                r.insert(w, name.clone());
                if let Some(j) = &journal {
                    // In-flight cases, for attribution should the process die.
                    let mut s = String::new();
                    for v in r.values() {
                        s.push_str(v);
                        s.push('\n');
                    }
                    if let Ok(mut fh) = std::fs::File::create(j) {
                        let _ = fh.write_all(s.as_bytes());
                    }
                }
            }
            let (tx, rx) = mpsc::channel();
            let n2 = name.clone();
            let forced = forced.clone();
            let t1 = Instant::now();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    getrandom::set_thread_stream(h64(&n2) ^ seed);
                    let mut c = Case {
                        salt: h64(&n2),
                        name: n2,
                        tier,
                        seed,
                        st: Stats::default(),
                        forced,
                        at: None,
                    };
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
                    };
                    getrandom::set_source(None);
                    let _ = tx.send((c, r));
                })
                .expect("harness: spawn");
            match rx.recv_timeout(Duration::from_secs_f64(case_wall)) {
                Ok((c, r)) => {
                    let mut g = stats.lock().unwrap();
                    g.states.extend(c.st.states.iter());
                    g.states_counted += c.st.states_counted;
                    g.transitions += c.st.transitions;
                    g.traces += c.st.traces;
                    g.executions += c.st.executions.max(1);
                    g.outcomes.extend(c.st.outcomes.iter());
                    if g.samples.len() < 12 {
                        for s in c.st.samples {
                            g.samples.push(format!("{}: {}", c.name, s));
                        }
                    }
                    drop(g);
                    if let Err(message) = r {
                        let mut v = violations.lock().unwrap();
                        v.push(Violation {
                            case: name.clone(),
                            choices: c.at,
                            message,
                        });
                        if v.len() >= 40 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    ran.fetch_add(1, Ordering::SeqCst);
                    running.lock().unwrap().remove(&w);
                    times
                        .lock()
                        .unwrap()
                        .push((name, t1.elapsed().as_secs_f64()));
                }
                Err(_) => {
                    timeouts.lock().unwrap().push(name);
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
            }
        }));
    }
    for h in hs {
        h.join().expect("harness: worker died");
    }
    let st = std::mem::take(&mut *stats.lock().unwrap());
    let mut times = std::mem::take(&mut *times.lock().unwrap());
    times.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
    times.truncate(6);
    let violations = std::mem::take(&mut *violations.lock().unwrap());
    let timeouts = std::mem::take(&mut *timeouts.lock().unwrap());
    let ran = ran.load(Ordering::SeqCst);
    Outcome {
        property: prop.into(),
        profile: if checked_build() {
            "checked"
        } else {
            "release"
        }
        .into(),
        cases: ran,
        states: st.states.len() as u64 + st.states_counted,
        transitions: st.transitions,
        traces: st.traces,
        executions: st.executions,
        distinct_outcomes: st.outcomes.len() as u64,
        samples: st.samples,
        bounds: plan.bounds,
        assumptions: plan.assumptions,
        exhaustive: plan.exhaustive && timeouts.is_empty(),
        skipped_cases: if opts.only.is_some() { 0 } else { total - ran },
        violations,
        timeouts,
        wall_s: t0.elapsed().as_secs_f64(),
        slowest: times,
    }
}
