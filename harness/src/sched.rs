//! A controlled scheduler for the real code.
//!
//! In the "sched" build every basic block of the code under test begins with
//! a call of `__sanitizer_cov_trace_pc`. Threads started by `run` execute one
//! at a time; which one, and for how many blocks, is what the schedule says.
//! Threads not started by `run` are never held up.
use crate::engine::{last_panic, Opts, Outcome, Tier, Violation};
use std::cell::Cell;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub const REST: u64 = u64::MAX;
const NONE: usize = usize::MAX;
const MAXT: usize = 4;
const MAXS: usize = 16;
static TURN: AtomicUsize = AtomicUsize::new(NONE);
static SEG: AtomicUsize = AtomicUsize::new(0);
static SEGS: AtomicUsize = AtomicUsize::new(0);
static THREADS: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicU64 = AtomicU64::new(0);
static TAKEOVERS: AtomicU64 = AtomicU64::new(0);
static PLAN_WHO: [AtomicUsize; MAXS] = [const { AtomicUsize::new(0) }; MAXS];
static PLAN_LEN: [AtomicU64; MAXS] = [const { AtomicU64::new(0) }; MAXS];
static COUNT: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static DONE: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
/// Where this process reports its result, when it may report a deadlock there.
static RESULT_FD: AtomicI32 = AtomicI32::new(-1);
static TID: [AtomicUsize; MAXT] = [const { AtomicUsize::new(0) }; MAXT];
thread_local!(static ME: Cell<usize> = const { Cell::new(NONE) });

/// Called at the start of every basic block of the code under test.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    let me = ME.try_with(|m| m.get()).unwrap_or(NONE);
    if me != NONE {
        step(me);
    } else {
        let _ = WORK.try_with(|w| w.set(w.get() + 1));
    }
}
/// Basic blocks executed so far by this thread outside any schedule (0 in
/// builds without scheduling points).
pub fn work() -> u64 {
    WORK.with(|w| w.get())
}
thread_local!(static WORK: Cell<u64> = const { Cell::new(0) });
fn step(me: usize) {
    loop {
        if TURN.load(Acquire) != me {
            wait(me);
        }
        let l = LEFT.load(Relaxed);
        if l > 0 {
            LEFT.store(l - 1, Relaxed);
            COUNT[me].fetch_add(1, Relaxed);
            return;
        }
        advance();
    }
}
/// Hands the turn to whoever the schedule names next.
fn advance() {
    let n = SEGS.load(Relaxed);
    loop {
        let s = SEG.fetch_add(1, Relaxed);
        let (who, len) = if s < n {
            (PLAN_WHO[s].load(Relaxed), PLAN_LEN[s].load(Relaxed))
        } else {
            match (0..THREADS.load(Relaxed)).find(|&t| !DONE[t].load(Relaxed)) {
                Some(t) => (t, REST),
                None => {
                    TURN.store(NONE, Release);
                    return;
                }
            }
        };
        if DONE[who].load(Relaxed) {
            continue;
        }
        LEFT.store(len, Relaxed);
        TURN.store(who, Release);
        return;
    }
}
/// Is the thread waiting in the kernel (for a lock, say)?
fn asleep(t: usize) -> bool {
    let tid = TID.get(t).map_or(0, |x| x.load(Relaxed));
    tid != 0
        && std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid))
            .ok()
            .and_then(|s| s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')))
            .unwrap_or(false)
}
/// All threads of a case share one processor (see `pin`): a thread that waits
/// gives it to the one whose turn it is.
fn wait(me: usize) {
    let mut spins = 0u32;
    let mut since: Option<(Instant, u64)> = None;
    let mut look = Duration::from_micros(300);
    while TURN.load(Acquire) != me {
        spins += 1;
        std::thread::yield_now();
        if spins % 16 == 0 {
            // A thread that holds the turn but waits for something (a lock
            // of the code under test) gives it up.
            let p: u64 = COUNT.iter().map(|c| c.load(Relaxed)).sum();
            match since {
                Some((t, q)) if q == p => {
                    let e = t.elapsed();
                    if e < look {
                        continue;
                    }
                    look = e + Duration::from_micros(300);
                    let holder = TURN.load(Acquire);
                    // asleep, or spinning outside the instrumented code
                    if holder != me
                        && (asleep(holder) || e > Duration::from_millis(100))
                        && COUNT.iter().map(|c| c.load(Relaxed)).sum::<u64>() == p
                        && TURN.compare_exchange(holder, me, AcqRel, Relaxed).is_ok()
                    {
                        SEG.store(SEGS.load(Relaxed), Relaxed);
                        LEFT.store(REST, Relaxed);
                        TAKEOVERS.fetch_add(1, Relaxed);
                        return;
                    }
                }
                _ => {
                    since = Some((Instant::now(), p));
                    look = Duration::from_micros(300);
                }
            }
        }
    }
}
/// Keeps this process on the n-th of the processors it may use.
fn pin(n: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let size = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, size, &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[n % cpus.len()];
        libc::CPU_ZERO(&mut set);
        libc::CPU_SET(c, &mut set);
        libc::sched_setaffinity(0, size, &set);
    }
}

pub type Op<'a, T> = Box<dyn FnOnce() -> T + Send + 'a>;
pub struct Ran<T> {
    pub results: Vec<Result<T, String>>,
    /// Basic blocks each thread executed.
    pub blocks: Vec<u64>,
    pub takeovers: u64,
}
/// Runs the operations, each on a new thread with generator stream
/// `streams[i]`, under the schedule [(thread, blocks)...]; afterwards the
/// unfinished threads run to their end in order.
pub fn run<T: Send>(ops: Vec<Op<T>>, streams: &[u64], schedule: &[(usize, u64)]) -> Ran<T> {
    let n = ops.len();
    assert!(n <= MAXT && schedule.len() <= MAXS);
    for (i, (w, l)) in schedule.iter().enumerate() {
        PLAN_WHO[i].store(*w, Relaxed);
        PLAN_LEN[i].store(*l, Relaxed);
    }
    SEGS.store(schedule.len(), Relaxed);
    SEG.store(0, Relaxed);
    THREADS.store(n, Relaxed);
    TAKEOVERS.store(0, Relaxed);
    for t in 0..MAXT {
        COUNT[t].store(0, Relaxed);
        DONE[t].store(t >= n, Relaxed);
        TID[t].store(0, Relaxed);
    }
    let main = std::thread::current();
    let results = std::thread::scope(|sc| {
        let main = &main;
        let hs: Vec<_> = ops
            .into_iter()
            .enumerate()
            .map(|(i, op)| {
                let st = streams[i];
                sc.spawn(move || {
                    getrandom::set_thread_stream(st);
                    // Hash maps of a dependency draw 64 bytes once per
                    // process: not part of any thread's stream.
                    getrandom::set_source(Some(Box::new(|d: &mut [u8]| {
                        if d.len() == 64 {
                            d.fill(0x5a);
                        } else {
                            getrandom::fallback_fill(d);
                        }
                        true
                    })));
                    TID[i].store(unsafe { libc::gettid() } as usize, Relaxed);
                    wait(i);
                    ME.with(|m| m.set(i));
                    let r = catch_unwind(AssertUnwindSafe(op));
                    ME.with(|m| m.set(NONE));
                    let r = r.map_err(|_| format!("panic: {}", last_panic()));
                    DONE[i].store(true, SeqCst);
                    if TURN.load(Acquire) == i {
                        advance();
                    }
                    if (0..n).all(|t| DONE[t].load(SeqCst)) {
                        main.unpark();
                    }
                    r
                })
            })
            .collect();
        advance();
        watch(n);
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("thread died".into())))
            .collect()
    });
    Ran {
        results,
        blocks: (0..n).map(|t| COUNT[t].load(Relaxed)).collect(),
        takeovers: TAKEOVERS.load(Relaxed),
    }
}

/// Waits until all threads are done. When all that are not sleep for long, and
/// nobody has made a step, they wait for each other: that is reported here,
/// since this process can not go on.
fn watch(n: usize) {
    let mut last = (u64::MAX, 0);
    loop {
        if (0..n).all(|t| DONE[t].load(SeqCst)) {
            return;
        }
        std::thread::park_timeout(Duration::from_millis(500));
        let p: u64 = COUNT.iter().map(|c| c.load(Relaxed)).sum();
        let stuck = (0..n).all(|t| DONE[t].load(SeqCst) || asleep(t));
        last = if stuck && last.0 == p { (p, last.1 + 1) } else { (p, 0) };
        if last.1 < 16 {
            continue;
        }
        let plan: Vec<(usize, u64)> = (0..SEGS.load(Relaxed))
            .map(|i| (PLAN_WHO[i].load(Relaxed), PLAN_LEN[i].load(Relaxed)))
            .collect();
        let blocks: Vec<u64> = (0..n).map(|t| COUNT[t].load(Relaxed)).collect();
        let open: Vec<usize> = (0..n).filter(|&t| !DONE[t].load(SeqCst)).collect();
        let m = format!(
            "under the schedule (thread, basic blocks) {:?} the threads {:?} wait forever, after {:?} blocks",
            plan.iter().map(|(w, l)| (*w, *l as i64)).collect::<Vec<_>>(),
            open,
            blocks
        );
        let fd = RESULT_FD.load(SeqCst);
        if fd >= 0 {
            let f = Found { executions: 1, violation: Some((flat(&plan), m)), ..Default::default() };
            let mut w = unsafe { std::fs::File::from_raw_fd(fd) };
            let _ = w.write_all(&bincode::serialize(&f).unwrap_or_default());
            unsafe { libc::_exit(0) };
        }
        eprintln!("{}", m);
        unsafe { libc::_exit(77) };
    }
}

/// Schedules of n threads with exactly `pre` preemptions at block granularity
/// for two threads executing na and nb blocks.
pub fn schedules(na: u64, nb: u64, pre: usize, mut f: impl FnMut(&[(usize, u64)]) -> bool) {
    for first in 0..2usize {
        let (n0, n1) = if first == 0 { (na, nb) } else { (nb, na) };
        let other = 1 - first;
        match pre {
            0 => {
                if !f(&[(first, REST), (other, REST)]) {
                    return;
                }
            }
            1 => {
                for k in 1..=n0 {
                    if !f(&[(first, k), (other, REST), (first, REST)]) {
                        return;
                    }
                }
            }
            2 => {
                for k in 1..=n0 {
                    for j in 1..=n1 {
                        if !f(&[(first, k), (other, j), (first, REST), (other, REST)]) {
                            return;
                        }
                    }
                }
            }
            _ => {
                // three: k blocks, j blocks, i more of the first, then the rest
                for k in 1..=n0 {
                    for j in 1..=n1 {
                        for i in 1..=n0.saturating_sub(k) {
                            if !f(&[(first, k), (other, j), (first, i), (other, REST), (first, REST)]) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------- cases in processes

#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Found {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: Vec<u64>,
    pub samples: Vec<String>,
    pub takeovers: u64,
    pub incomplete: bool,
    pub violation: Option<(Vec<usize>, String)>,
}
pub struct Ctx {
    pub tier: Tier,
    pub forced: Option<Vec<usize>>,
}
impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}
pub type SFn = Box<dyn Fn(&Ctx) -> Found>;
pub struct SPlan {
    pub tier: Tier,
    pub cases: Vec<(String, SFn)>,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
}
impl SPlan {
    pub fn case(&mut self, name: impl Into<String>, f: impl Fn(&Ctx) -> Found + 'static) {
        self.cases.push((name.into(), Box::new(f)));
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

pub fn flat(s: &[(usize, u64)]) -> Vec<usize> {
    s.iter().flat_map(|(w, l)| [*w, *l as usize]).collect()
}
pub fn unflat(v: &[usize]) -> Vec<(usize, u64)> {
    v.chunks(2).map(|c| (c[0], c[1] as u64)).collect()
}

/// Runs `f` in a child process; None when the child died.
pub fn in_child<T: serde::Serialize + serde::de::DeserializeOwned>(
    f: impl FnOnce() -> T,
    limit: Duration,
) -> Result<T, String> {
    let (pid, mut rd) = spawn_child(|_| f());
    let mut buf = vec![];
    let t0 = Instant::now();
    // non-blocking: the child may hang
    loop {
        let mut p = libc::pollfd { fd: std::os::fd::AsRawFd::as_raw_fd(&rd), events: libc::POLLIN, revents: 0 };
        let left = limit.saturating_sub(t0.elapsed());
        let r = unsafe { libc::poll(&mut p, 1, left.as_millis().min(1000) as i32) };
        if r > 0 {
            let mut b = [0u8; 65536];
            match rd.read(&mut b) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&b[..n]),
                Err(_) => break,
            }
        } else if t0.elapsed() >= limit {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, std::ptr::null_mut(), 0);
            }
            return Err("does not terminate".into());
        }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if st == 77 << 8 {
        return Err("threads wait for each other forever".into());
    }
    bincode::deserialize(&buf).map_err(|_| format!("the process ended with status {:#x}", st))
}
fn spawn_child<T: serde::Serialize>(f: impl FnOnce(i32) -> T) -> (i32, std::fs::File) {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            libc::close(fds[0]);
            RESULT_FD.store(-1, SeqCst);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let r = catch_unwind(AssertUnwindSafe(|| f(fds[1])));
            if let Ok(r) = r {
                let b = bincode::serialize(&r).unwrap_or_default();
                let _ = w.write_all(&b);
                let _ = w.flush();
                drop(w);
                libc::_exit(0);
            }
            eprintln!("harness: child panicked: {}", last_panic());
            libc::_exit(101);
        }
        libc::close(fds[1]);
        (pid, std::fs::File::from_raw_fd(fds[0]))
    }
}

fn opts_slots() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16)
}
/// Runs the cases, each in a process of its own, a few at a time. This
/// process stays single-threaded and never executes the code under test.
pub fn drive(prop: &str, mode: &str, plan: SPlan, opts: &Opts) -> Outcome {
    let t0 = Instant::now();
    let total = plan.cases.len();
    let todo: Vec<usize> = (0..total)
        .filter(|&i| opts.only.as_ref().map_or(true, |o| *o == plan.cases[i].0))
        .collect();
    if opts.only.is_some() && todo.is_empty() {
        eprintln!("no such case");
        std::process::exit(4);
    }
    let mut out = Outcome {
        property: prop.into(),
        profile: mode.into(),
        cases: 0,
        states: 0,
        transitions: 0,
        traces: 0,
        executions: 0,
        distinct_outcomes: 0,
        samples: vec![],
        bounds: plan.bounds.clone(),
        assumptions: plan.assumptions.clone(),
        exhaustive: true,
        violations: vec![],
        skipped_cases: 0,
        timeouts: vec![],
        wall_s: 0.0,
        slowest: vec![],
    };
    let ctx = Ctx { tier: plan.tier, forced: opts.choices.clone() };
    let slots = opts_slots();
    let mut used = vec![false; slots];
    let mut live: Vec<(usize, i32, std::fs::File, Vec<u8>, Instant, usize)> = vec![];
    let mut next = 0;
    let mut seen = std::collections::HashSet::new();
    let mut slowest = vec![];
    loop {
        while live.len() < slots && next < todo.len() && out.violations.len() < 20 {
            let i = todo[next];
            next += 1;
            let slot = used.iter().position(|u| !u).unwrap();
            used[slot] = true;
            let (pid, rd) = spawn_child(|fd| {
                pin(slot);
                RESULT_FD.store(fd, SeqCst);
                (plan.cases[i].1)(&ctx)
            });
            live.push((i, pid, rd, vec![], Instant::now(), slot));
        }
        if live.is_empty() {
            break;
        }
        let mut ps: Vec<libc::pollfd> = live
            .iter()
            .map(|l| libc::pollfd { fd: std::os::fd::AsRawFd::as_raw_fd(&l.2), events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(ps.as_mut_ptr(), ps.len() as u64, 500) };
        let mut k = 0;
        for p in ps {
            let mut over = false;
            let mut hung = false;
            if p.revents != 0 {
                let mut b = [0u8; 65536];
                match live[k].2.read(&mut b) {
                    Ok(n) if n > 0 => live[k].3.extend_from_slice(&b[..n]),
                    _ => over = true,
                }
            } else if live[k].4.elapsed().as_secs_f64() > opts.case_wall {
                over = true;
                hung = true;
                unsafe { libc::kill(live[k].1, libc::SIGKILL) };
            }
            if !over {
                k += 1;
                continue;
            }
            let (i, pid, _rd, buf, t1, slot) = live.remove(k);
            used[slot] = false;
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            let name = plan.cases[i].0.clone();
            out.cases += 1;
            slowest.push((name.clone(), t1.elapsed().as_secs_f64()));
            if hung {
                out.timeouts.push(name);
                next = todo.len();
                continue;
            }
            match bincode::deserialize::<Found>(&buf) {
                Ok(f) => {
                    out.executions += f.executions;
                    out.traces += f.executions;
                    out.states += f.states;
                    out.transitions += f.transitions;
                    out.exhaustive &= !f.incomplete;
                    seen.extend(f.outcomes.iter().map(|o| crate::engine::h64(&(i, *o))));
                    for s in f.samples {
                        if out.samples.len() < 12 {
                            out.samples.push(format!("{}: {}", name, s));
                        }
                    }
                    if let Some((at, message)) = f.violation {
                        out.violations.push(Violation { case: name, choices: Some(at), message });
                    }
                }
                Err(_) => out.violations.push(Violation {
                    case: name,
                    choices: None,
                    message: format!("the process running the code ended with status {:#x}", st),
                }),
            }
        }
    }
    out.distinct_outcomes = seen.len() as u64;
    out.skipped_cases = if opts.only.is_some() { 0 } else { total - out.cases };
    slowest.sort_by(|a: &(String, f64), b| b.1.partial_cmp(&a.1).unwrap());
    slowest.truncate(if std::env::var("MC_ALL").is_ok() { 9999 } else { 6 });
    out.slowest = slowest;
    out.wall_s = t0.elapsed().as_secs_f64();
    out
}

// --------------------------------------------------- exploring a set of ops

/// What an operation lets its caller observe.
pub type Obs = Result<Vec<u8>, String>;
/// Explores the schedules of two operations; `mk` makes fresh closures for
/// each execution, `want` is what each must observe.
pub struct Explore<'a> {
    pub want: [Obs; 2],
    pub label: String,
    pub mk: Box<dyn Fn() -> Vec<Op<'a, Obs>> + 'a>,
    pub streams: [u64; 2],
}
pub fn show(o: &Obs) -> String {
    match o {
        Ok(b) => format!("Ok of {} bytes, hash {:016x}, {:02x?}", b.len(), crate::engine::h64(b), &b[..b.len().min(24)]),
        Err(e) => format!("Err({})", e),
    }
}
/// Joins the two layers of errors: a panic is an observation too.
pub fn obs(r: &Result<Obs, String>) -> Obs {
    match r {
        Ok(o) => o.clone(),
        Err(p) => Err(p.clone()),
    }
}
impl<'a> Explore<'a> {
    pub fn go(&self, f: &mut Found, s: &[(usize, u64)]) -> Vec<u64> {
        let r = run((self.mk)(), &self.streams, s);
        f.executions += 1;
        f.states += 1;
        f.transitions += r.blocks.iter().sum::<u64>();
        f.takeovers += r.takeovers;
        for t in 0..2 {
            let got = obs(&r.results[t]);
            if got != self.want[t] && f.violation.is_none() {
                f.violation = Some((
                    flat(s),
                    format!(
                        "{}: under the schedule (thread, basic blocks) {:?} thread {} observes {}, alone {}",
                        self.label,
                        s.iter().map(|(w, l)| (*w, *l as i64)).collect::<Vec<_>>(),
                        t,
                        show(&got),
                        show(&self.want[t])
                    ),
                ));
            }
            if f.outcomes.len() < 4096 {
                f.outcomes.push(crate::engine::h64(&(t, show(&got))));
            }
        }
        r.blocks
    }
    /// All schedules with up to `pre` preemptions; two only when the product
    /// of the lengths is at most `limit`.
    pub fn all(&self, ctx: &Ctx, limit: u64) -> Found {
        let mut f = Found::default();
        if let Some(c) = &ctx.forced {
            self.go(&mut f, &unflat(c));
            return f;
        }
        let mut n = [0u64; 2];
        schedules(0, 0, 0, |s| {
            let b = self.go(&mut f, s);
            n = [n[0].max(b[0]), n[1].max(b[1])];
            f.violation.is_none()
        });
        for pre in 1..=2 {
            if pre == 2 && n[0] * n[1] * 2 > limit {
                continue;
            }
            schedules(n[0], n[1], pre, |s| {
                if f.violation.is_some() {
                    return false;
                }
                if f.takeovers > 3000 {
                    // every execution waits for a lock: give up completeness
                    f.incomplete = true;
                    return false;
                }
                self.go(&mut f, s);
                true
            });
        }
        f.outcomes.sort();
        f.outcomes.dedup();
        f.samples.push(format!(
            "{} and {} blocks: {} schedules",
            n[0], n[1], f.executions
        ));
        f
    }
}
