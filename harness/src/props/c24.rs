//! C24: what a process did before never changes what an operation gives.
use super::ops::*;
use crate::sched::*;
use crate::util::{scratch, sm, Scratch};
use std::time::Duration;

/// An operation and the variant of its arguments.
#[derive(Clone, Copy)]
struct Letter {
    name: &'static str,
    act: Act,
    v: usize,
    stream: u64,
}
fn letters() -> Vec<Letter> {
    OPS.iter()
        .filter(|o| o.0 != "keyword build")
        .chain(MORE)
        .flat_map(|o| [0, 1].map(|v| Letter { name: o.0, act: o.1, v, stream: 0 }))
        .collect()
}
fn world() -> Result<(World, Scratch), String> {
    let sc = scratch("hist")?;
    let d = sc.path.clone();
    let b = in_child(
        move || World::new(3, 2, 2, 2, &d).and_then(|w| bincode::serialize(&w).map_err(|e| e.to_string())),
        Duration::from_secs(60),
    )??;
    Ok((bincode::deserialize(&b).map_err(|e| e.to_string())?, sc))
}
thread_local!(static STREAM: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
/// One operation with the draws that belong to it.
fn step(w: &World, l: &Letter) -> Obs {
    getrandom::set_thread_stream(l.stream);
    STREAM.with(|s| s.set(l.stream));
    crate::engine::no_panic(|| (l.act)(w, l.v)).unwrap_or_else(|p| Err(format!("panic: {}", p)))
}
/// A generator of the rand crate that fills unused filter slots asks for 32
/// bytes at times of its own, just like the code asks for seeds: all requests
/// of an operation for 32 bytes are answered alike. Its hash maps ask for 64
/// bytes once per process: not part of any operation's draws.
fn own_draws() {
    // an operation that leaves a file open runs into this before long
    unsafe {
        let mut l = std::mem::zeroed::<libc::rlimit>();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max.min(256);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    getrandom::set_source(Some(Box::new(|d: &mut [u8]| {
        match d.len() {
            64 => d.fill(0x5a),
            32 => {
                let s = STREAM.with(|s| s.get());
                for (i, x) in d.iter_mut().enumerate() {
                    *x = (sm(s * 64 + i as u64) >> 11) as u8;
                }
            }
            _ => getrandom::fallback_fill(d),
        }
        true
    })));
}
fn broken(m: String) -> Found {
    Found { violation: Some((vec![], m)), ..Default::default() }
}
struct Setup {
    w: World,
    _sc: Scratch,
    ls: Vec<Letter>,
    want: Vec<Obs>,
}
/// The world and each operation's result as the first one of a process.
fn setup() -> Result<Setup, String> {
    let (w, sc) = world()?;
    let mut ls = letters();
    let mut want = vec![];
    for (n, l) in ls.iter_mut().enumerate() {
        // draws with which the operation succeeds
        let mut last = String::new();
        for t in 0..40u64 {
            l.stream = 1 + n as u64 + 1000 * t;
            let (wr, lr) = (&w, &*l);
            let r = in_child(
                move || {
                    own_draws();
                    step(wr, lr)
                },
                Duration::from_secs(30),
            )
            .map_err(|e| format!("{} (variant {}) as the first operation: {}", lr.name, lr.v, e))?;
            match r {
                Ok(_) => {
                    want.push(r);
                    break;
                }
                Err(e) => last = e,
            }
        }
        if want.len() != n + 1 {
            return Err(format!("{} (variant {}) as the first operation: {}", l.name, l.v, last));
        }
    }
    Ok(Setup { w, _sc: sc, ls, want })
}
impl Setup {
    fn path(&self, p: &[usize]) -> Vec<String> {
        p.iter().map(|&i| format!("{}/{}", self.ls[i].name, self.ls[i].v)).collect()
    }
    /// Takes one step and compares.
    fn check(&self, f: &mut Found, p: &[usize]) -> bool {
        let i = *p.last().unwrap();
        let got = step(&self.w, &self.ls[i]);
        f.transitions += 1;
        if got != self.want[i] {
            f.violation = Some((
                p.to_vec(),
                format!(
                    "history {:?}: the last operation gives {}, as the first of a process {}",
                    self.path(&p[p.len().saturating_sub(6)..]),
                    show(&got),
                    show(&self.want[i])
                ),
            ));
            return false;
        }
        true
    }
    /// All continuations of a history, each from a copy of the process.
    fn tree(&self, p: &mut Vec<usize>, depth: usize, alphabet: &[usize]) -> Found {
        let mut f = Found::default();
        for &i in alphabet {
            p.push(i);
            let pr = &mut *p;
            let r = in_child(
                move || {
                    let mut f = Found::default();
                    if self.check(&mut f, pr) && depth > 1 {
                        let g = self.tree(pr, depth - 1, alphabet);
                        f.executions += g.executions;
                        f.states += g.states;
                        f.transitions += g.transitions;
                        f.violation = g.violation;
                    } else {
                        f.executions += 1;
                    }
                    f.states += 1;
                    f
                },
                Duration::from_secs(600),
            );
            match r {
                Ok(g) => {
                    f.executions += g.executions;
                    f.states += g.states;
                    f.transitions += g.transitions;
                    f.violation = g.violation;
                }
                Err(e) => f.violation = Some((p.clone(), format!("history {:?}: {}", self.path(p), e))),
            }
            p.pop();
            if f.violation.is_some() {
                break;
            }
        }
        f
    }
    /// One history given step by step.
    fn run(&self, it: impl Iterator<Item = usize>, replay: Option<&[usize]>) -> Found {
        own_draws();
        let mut f = Found::default();
        if let Some(r) = replay {
            for k in 1..=r.len() {
                if !self.check(&mut f, &r[..k]) {
                    break;
                }
            }
            return f;
        }
        let mut tail: Vec<usize> = vec![];
        let mut n = 0u64;
        for i in it {
            if tail.len() >= 64 {
                tail.drain(..32);
            }
            tail.push(i);
            n += 1;
            if !self.check(&mut f, &tail) {
                let (_, m) = f.violation.take().unwrap();
                f.violation = Some((vec![], format!("after {} operations, {}", n - 1, m)));
                break;
            }
        }
        f.executions = 1;
        f.states = n;
        f.samples.push(format!("{} operations in one process", n));
        f
    }
}
/// Every word of length n over k letters occurs in it.
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn go(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        go(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            go(t + 1, t, k, n, a, out);
        }
    }
    let mut out = vec![];
    go(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
    out.extend(vec![0; n - 1]);
    out
}
fn is_heavy(name: &str) -> bool {
    name.contains("file") || name.contains("load") || name.contains("p filter") || name.contains("shape aliases")
}
fn with(f: impl Fn(&Ctx, &Setup) -> Found + 'static) -> impl Fn(&Ctx) -> Found + 'static {
    move |c| match setup() {
        Ok(s) => f(c, &s),
        Err(e) => broken(e),
    }
}

pub fn plan(pl: &mut SPlan) {
    let th = pl.thorough();
    let n = letters().len();
    let depth = if th { 4 } else { 3 };
    pl.bound(format!("every history of at most {} operations over {} operations with arguments, each in a process of its own from the start", depth, n));
    pl.bound("one process that runs through every sequence of three operations in a row (of two, where files are involved), and processes that repeat each operation and each pair of operations many thousand times");
    pl.assume("within one operation all requests for 32 random bytes are answered alike (the rand crate reseeds itself at times of its own)");
    let quick: Vec<usize> = (0..n).filter(|&i| th || !is_heavy(letters()[i].name)).collect();
    let all: Vec<usize> = (0..n).collect();
    for (name, set, k) in [("every three in a row", quick, 3), ("every two in a row", all, 2)] {
        pl.case(name, with(move |c, s| {
            let set = set.clone();
            s.run(de_bruijn(set.len(), k).into_iter().map(move |i| set[i]), c.forced.as_deref())
        }));
    }
    for i in 0..n {
        let l = letters()[i];
        pl.case(format!("tree {}/{}", l.name, l.v), with(move |c, s| {
            own_draws();
            if c.forced.is_some() {
                return s.run(std::iter::empty(), c.forced.as_deref());
            }
            let mut p = vec![i];
            let mut f = Found::default();
            if s.check(&mut f, &p) {
                let g = s.tree(&mut p, depth - 1, &(0..n).collect::<Vec<_>>());
                f.executions = g.executions;
                f.states = g.states + 1;
                f.transitions += g.transitions;
                f.violation = g.violation;
            }
            f
        }));
        let times = move |name: &str| -> usize {
            let k = if name.contains("large") { 300 } else if is_heavy(name) { 5000 } else { 70_000 };
            if th { k * 15 } else { k }
        };
        if l.v == 0 {
            pl.case(format!("repeat {}", l.name), with(move |c, s| {
                let k = times(l.name);
                s.run((0..k).map(move |x| if x < k / 2 { i } else { i + x % 2 }), c.forced.as_deref())
            }));
        }
    }
    for r in 0..if th { 64u64 } else { 4 } {
        // each operation some hundred times, then the next, in shuffled order
        pl.case(format!("blocks {}", r), with(move |c, s| {
            s.run(
                (0..n * 3).flat_map(move |b| {
                    let i = (sm(r * 1000 + b as u64) % n as u64) as usize;
                    let k = 1 + (sm(77 + r * 1000 + b as u64) % 300) as usize;
                    std::iter::repeat(i).take(if s.ls[i].name.contains("large") { 1 + k / 50 } else { k })
                }),
                c.forced.as_deref(),
            )
        }));
    }
}
