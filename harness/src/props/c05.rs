//! C05: secrets and errors are sampled exactly uniformly from {-1,0,1}.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, IndexParams, KVDatabase, KVParams};
use std::cell::UnsafeCell;
use std::rc::Rc;

/// Feeds 32-bit words from a tape, then a filler.
struct TapeState {
    words: Vec<u32>,
    pos: usize,
    fill: u32,
}
struct Tape(Rc<UnsafeCell<TapeState>>);
impl Tape {
    fn new() -> Tape {
        let t = Rc::new(UnsafeCell::new(TapeState { words: vec![], pos: 0, fill: 0 }));
        let t2 = t.clone();
        getrandom::set_source(Some(Box::new(move |d: &mut [u8]| {
            // Single-threaded, and never entered recursively.
            let t = unsafe { &mut *t2.get() };
            let mut next = || {
                let x = t.words.get(t.pos).copied().unwrap_or(t.fill);
                t.pos += 1;
                x.to_le_bytes()
            };
            if d.len() == 4 {
                d.copy_from_slice(&next());
            } else {
                for ch in d.chunks_mut(4) {
                    let n = ch.len();
                    ch.copy_from_slice(&next()[..n]);
                }
            }
            true
        })));
        Tape(t)
    }
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut TapeState {
        unsafe { &mut *self.0.get() }
    }
    fn set(&self, f: impl FnOnce(&mut Vec<u32>)) {
        f(&mut self.st().words);
        self.st().pos = 0;
    }
    fn fill(&self, w: u32) {
        self.st().fill = w;
    }
    fn used(&self) -> usize {
        self.st().pos
    }
}
impl Drop for Tape {
    fn drop(&mut self) {
        getrandom::set_source(None);
    }
}

/// A way to make the code sample `n` coordinates.
trait Sampler {
    fn n(&self) -> usize;
    /// Tape length of one execution without rejections.
    fn draws(&self) -> usize;
    /// Position on the tape of each coordinate.
    fn at(&self) -> &[usize];
    fn run(&mut self) -> Result<(), String>;
    fn out(&self) -> &[u32];
}

/// Errors: s = 0, so that s*A+e is e.
struct Errors {
    cp: CommonParams,
    at: Vec<usize>,
    out: Vec<u32>,
}
impl Errors {
    fn new(n: usize) -> Self {
        Errors { cp: cp_from(&vec![vec![0u32]; n]), at: (0..n).collect(), out: vec![] }
    }
}
impl Sampler for Errors {
    fn n(&self) -> usize {
        self.at.len()
    }
    fn draws(&self) -> usize {
        self.at.len()
    }
    fn at(&self) -> &[usize] {
        &self.at
    }
    fn run(&mut self) -> Result<(), String> {
        self.out = self.cp.mult_left(&[0]).map_err(|e| e.to_string())?;
        Ok(())
    }
    fn out(&self) -> &[u32] {
        &self.out
    }
}

/// Secrets: 14 coordinates per query word, weighted with powers of 4 from
/// 4^1; the error (fixed to 0 by its word) is the lowest digit.
const PER: usize = 14;
enum Params {
    Index(IndexParams),
    Kv(KVParams, [u64; 4], Vec<usize>),
}
struct Secrets {
    params: Params,
    cp: CommonParams,
    at: Vec<usize>,
    n: usize,
    h: usize,
    p: usize,
    out: Vec<u32>,
}
fn balanced4(x: u32, out: &mut [u32]) -> Result<(), String> {
    let mut v = x as i32 as i64;
    for (k, o) in std::iter::once(None)
        .chain(out.iter_mut().map(Some))
        .enumerate()
    {
        let d = match v & 3 {
            0 => 0i64,
            1 => 1,
            3 => -1,
            _ => return Err(format!("digit {} of {:#x} is not in -1,0,1", k, x)),
        };
        match o {
            None if d != 0 => return Err("error not 0 where its word says 0".into()),
            None => {}
            Some(o) => *o = d as u32,
        }
        v = (v - d) >> 2;
    }
    if v != 0 {
        return Err(format!("{:#x} is no combination of values -1,0,1", x));
    }
    Ok(())
}
impl Secrets {
    fn new(n: usize, kv: bool, tape: &Tape) -> Result<Self, String> {
        let p = 9;
        let need = (n + PER - 1) / PER;
        tape.fill(0x1357_9bdf);
        tape.set(|v| v.clear());
        let (params, h) = if kv {
            let keys = keyset(0, 1);
            let (kvs, _) = kvs_of(&keys, 0, p, p);
            let db = KVDatabase::new(&kvs, 1, p, p).map_err(|e| e.to_string())?;
            let f = db.get_filter_params().clone();
            let kp = KVParams::new(
                &db,
                n,
                f.seed,
                f.segment_length,
                f.segment_length_mask,
                f.segment_count_length,
            );
            let h = kp.get_total_records();
            let ev = f.get_hash_evals(&keys[0]);
            (Params::Kv(kp, keys[0], ev), h)
        } else {
            let el = b64s(&elements(0, need, p));
            let db = IndexDatabase::new(&el, need, p, p).map_err(|e| e.to_string())?;
            (Params::Index(IndexParams::new(&db, n)), need)
        };
        let mut cols = vec![vec![0u32; n]; h];
        for i in 0..n {
            cols[(i / PER) % h][i] = 4u32.pow((i % PER) as u32 + 1);
        }
        let mut s = Secrets {
            params,
            cp: cp_from(&cols),
            at: vec![],
            n,
            h,
            p,
            out: vec![0; n],
        };
        if h < need {
            return Err("harness: matrix too low".into());
        }
        // which draw decides which coordinate
        let w = coin_words();
        tape.fill(w[0]);
        tape.set(|v| v.clear());
        s.run()?;
        if tape.used() != n + h {
            return Err(format!(
                "{} draws for {} secret and {} error coordinates",
                tape.used(),
                n,
                h
            ));
        }
        if s.out.iter().any(|&x| x != 0) {
            return Err("zero coins give a non-zero secret".into());
        }
        let mut at = vec![usize::MAX; n];
        for k in 0..n + h {
            tape.set(|v| {
                v.clear();
                v.resize(n + h, w[0]);
                v[k] = w[1];
            });
            // draws that decide an error make `run` fail
            if s.run().is_ok() {
                for i in 0..n {
                    if s.out[i] != 0 {
                        if at[i] != usize::MAX {
                            return Err(format!("secret coordinate {} is decided by two draws", i));
                        }
                        at[i] = k;
                    }
                }
            }
        }
        if at.contains(&usize::MAX) {
            return Err("a secret coordinate is decided by no draw".into());
        }
        s.at = at;
        Ok(s)
    }
}
impl Sampler for Secrets {
    fn n(&self) -> usize {
        self.n
    }
    fn draws(&self) -> usize {
        self.n + self.h
    }
    fn at(&self) -> &[usize] {
        &self.at
    }
    fn run(&mut self) -> Result<(), String> {
        let d = delta(self.p);
        let mut q: Vec<u32> = match &self.params {
            Params::Index(ip) => {
                let mut qp =
                    generate_index_query_params(&self.cp, ip).map_err(|e| e.to_string())?;
                let q = qp.generate_query(0).map_err(|e| e.to_string())?;
                let mut q = q.as_slice().to_vec();
                q[0] = q[0].wrapping_sub(d);
                q
            }
            Params::Kv(kp, key, ev) => {
                let mut qp = generate_kv_query_params(&self.cp, kp).map_err(|e| e.to_string())?;
                let q = qp.generate_query(key).map_err(|e| e.to_string())?;
                let mut q = q.as_slice().to_vec();
                for &x in ev {
                    q[x] = q[x].wrapping_sub(d);
                }
                q
            }
        };
        q.truncate((self.n + PER - 1) / PER);
        for (j, x) in q.iter().enumerate() {
            let a = j * PER;
            let b = (a + PER).min(self.n);
            balanced4(*x, &mut self.out[a..b])?;
        }
        Ok(())
    }
    fn out(&self) -> &[u32] {
        &self.out
    }
}

fn class(x: u32) -> Result<usize, String> {
    match x {
        0 => Ok(0),
        1 => Ok(1),
        u32::MAX => Ok(2),
        _ => Err(format!("value {:#x} is not -1, 0 or 1", x)),
    }
}

/// Classes of single words with a one-coordinate sampler; 3 = rejected.
fn single(s: &mut dyn Sampler, tape: &Tape, word: u32, base: u32) -> Result<usize, String> {
    let at = s.at()[0];
    let n = s.draws();
    let fills = coin_words();
    tape.fill(base);
    let mut res = vec![];
    // The words after: whatever they are, an accepted word decides alone.
    for f in fills {
        tape.set(|v| {
            v.clear();
            v.resize(n, base);
            v[at] = word;
            if at + 1 < n || n == 1 {
                v.insert(at + 1, f);
                v.truncate(n.max(at + 2));
            }
        });
        if at + 1 < n {
            // A redraw takes the word f, which otherwise belongs to the next
            // coordinate, so only a redraw may look at it here.
            tape.set(|v| {
                v.clear();
                v.resize(n, base);
                v[at] = word;
            });
        }
        let r = s.run();
        let used = tape.used();
        r?;
        res.push((used, class(s.out()[0])?, f));
        if at + 1 < n {
            break;
        }
    }
    if res.iter().all(|r| r.0 == n) {
        if res.iter().any(|r| r.1 != res[0].1) {
            return Err(format!("word {:#010x} is accepted but a later word decides", word));
        }
        return Ok(res[0].1);
    }
    for (used, cl, f) in &res {
        if *used != n + 1 {
            return Err(format!(
                "word {:#010x}: {} draws instead of {} after a rejection",
                word,
                used - n + 1,
                2
            ));
        }
        let want = if res.len() == 1 {
            0
        } else {
            coin_words().iter().position(|w| w == f).unwrap()
        };
        if *cl != want {
            return Err(format!("rejected word {:#010x}: the redrawn word is not used", word));
        }
    }
    Ok(3)
}

type Counts = [u64; 4];
/// Classifies `count` words from `from` on with stride `step`.
fn sweep(
    big: &mut dyn Sampler,
    one: &mut dyn Sampler,
    tape: &Tape,
    from: u64,
    count: u64,
    step: u64,
) -> Result<(Counts, Vec<(u32, usize)>), String> {
    let base = coin_words()[0];
    let mut c = [0u64; 4];
    let mut edges = vec![];
    let mut last = 9;
    let n = big.n();
    let mut i = 0u64;
    let mut classes = vec![0usize; n];
    let at = big.at().to_vec();
    let draws = big.draws();
    while i < count {
        let k = n.min((count - i) as usize);
        let word = |j: usize| (from + (i + j as u64) * step) as u32;
        tape.fill(base);
        tape.set(|v| {
            v.clear();
            v.resize(draws, base);
            for j in 0..k {
                v[at[j]] = word(j);
            }
        });
        let r = big.run();
        if tape.used() == draws {
            r.map_err(|e| format!("words from {:#010x}: {}", word(0), e))?;
            for j in 0..k {
                classes[j] = class(big.out()[j])
                    .map_err(|e| format!("word {:#010x}: {}", word(j), e))?;
            }
        } else {
            for j in 0..k {
                classes[j] = single(one, tape, word(j), base)?;
            }
            if c[3] > 1 << 20 {
                return Err(format!("more than {} of the words are rejected", c[3]));
            }
        }
        for j in 0..k {
            c[classes[j]] += 1;
            if classes[j] != last {
                edges.push((word(j), classes[j]));
                last = classes[j];
                if edges.len() > 4096 {
                    edges.truncate(4096);
                }
            }
        }
        i += k as u64;
    }
    Ok((c, edges))
}

fn make(kind: usize, n: usize, tape: &Tape) -> Result<Box<dyn Sampler>, String> {
    Ok(match kind {
        0 => Box::new(Errors::new(n)),
        1 => Box::new(Secrets::new(n, false, tape)?),
        _ => Box::new(Secrets::new(n, true, tape)?),
    })
}
const SIZES: [usize; 3] = [2048, 14 * 8, 14 * 8];
const NAMES: [&str; 3] = ["error", "index secret", "keyword secret"];

fn full(c: &mut Case, kind: usize) -> R {
    let _ = coin_words();
    let threads = 8u64;
    let span = (1u64 << 32) / threads;
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            std::thread::spawn(move || {
                no_panic(|| {
                    let tape = Tape::new();
                    let mut big = make(kind, SIZES[kind], &tape)?;
                    let mut one = make(kind, 1, &tape)?;
                    sweep(&mut *big, &mut *one, &tape, t * span, span, 1)
                })
                .unwrap_or_else(|p| Err(format!("panic: {}", p)))
            })
        })
        .collect();
    let mut tot = [0u64; 4];
    let mut edges: Vec<(u32, usize)> = vec![];
    let mut err = None;
    for h in hs {
        match h.join().map_err(|_| "thread died".to_string())? {
            Ok((k, e)) => {
                for i in 0..4 {
                    tot[i] += k[i];
                }
                for x in e {
                    if edges.last().map(|l| l.1) != Some(x.1) {
                        edges.push(x);
                    }
                }
            }
            Err(e) => err = Some(e),
        }
    }
    if let Some(e) = err {
        return Err(format!("{}: {}", NAMES[kind], e));
    }
    c.states_by_construction(1 << 32);
    c.steps(1 << 32);
    c.traces(1 << 32);
    c.outcome(&tot);
    c.sample(format!(
        "{}: 0:{} 1:{} -1:{} rejected:{}, class changes at {:x?}",
        NAMES[kind],
        tot[0],
        tot[1],
        tot[2],
        tot[3],
        &edges[..edges.len().min(6)]
    ));
    judge(kind, &tot)
}
fn judge(kind: usize, tot: &Counts) -> R {
    if tot[0] != tot[1] || tot[1] != tot[2] {
        return Err(format!(
            "{} coordinates are not uniform: of the 2^32 generator words {} give 0, {} give 1, {} give -1 ({} rejected)",
            NAMES[kind], tot[0], tot[1], tot[2], tot[3]
        ));
    }
    if tot[3] > 1 << 16 {
        return Err(format!("{}: {} words rejected", NAMES[kind], tot[3]));
    }
    Ok(())
}

/// Words around every power-of-two and third boundary, and strided ones.
fn partial(c: &mut Case, kind: usize) -> R {
    let _ = coin_words();
    let tape = Tape::new();
    let mut big = make(kind, SIZES[kind], &tape)?;
    let mut one = make(kind, 1, &tape)?;
    let third = (1u64 << 32) / 3;
    for b in [0, third, 2 * third, (1u64 << 32) - 2048, 1 << 31, 1 << 30] {
        let from = b.saturating_sub(1024);
        let (k, _) = sweep(&mut *big, &mut *one, &tape, from, 2048, 1)?;
        c.states_by_construction(2048);
        c.outcome(&k);
    }
    let step = 4093u64;
    let n = (1u64 << 32) / step;
    let (k, _) = sweep(&mut *big, &mut *one, &tape, 0, n, step)?;
    c.states_by_construction(n);
    c.steps(n);
    c.traces(n);
    let (lo, hi) = (k[..3].iter().min().unwrap(), k[..3].iter().max().unwrap());
    if hi - lo > 4 {
        return Err(format!("{}: strided counts {:?}", NAMES[kind], k));
    }
    Ok(())
}

/// Every run of rejected words is followed by a redraw, whatever its length.
fn redraw(c: &mut Case, kind: usize) -> R {
    let tape = Tape::new();
    let mut one = make(kind, 1, &tape)?;
    let w = coin_words();
    let mut rej = vec![];
    for x in (u32::MAX - 4096..=u32::MAX).rev() {
        if single(&mut *one, &tape, x, w[0])? == 3 {
            rej.push(x);
        }
    }
    let at = one.at()[0];
    let n = one.draws();
    for len in 0..=6usize {
        if len > 0 && rej.is_empty() {
            break;
        }
        for k in 0..3 {
            tape.fill(w[0]);
            tape.set(|v| {
                v.clear();
                v.resize(n, w[0]);
                v[at] = w[k];
                for i in 0..len {
                    v.insert(at, rej[i % rej.len()]);
                }
            });
            one.run()?;
            if tape.used() != n + len || class(one.out()[0])? != k {
                return Err(format!(
                    "{}: {} rejected words, then {:#x}: value {:#x}, {} draws",
                    NAMES[kind],
                    len,
                    w[k],
                    one.out()[0],
                    tape.used()
                ));
            }
            c.state(&(kind, len, k));
            c.steps(1);
            c.trace();
        }
    }
    Ok(())
}

/// Vectors of any length: every coordinate is decided by a draw of its own.
/// The draw with number k carries the digits of k in base 3, one per run.
fn long(c: &mut Case, kind: usize, n: usize) -> R {
    let tape = Tape::new();
    let w = coin_words();
    let mut one = make(kind, 1, &tape)?;
    // words at both ends of the intervals, with their classes
    let third = u32::MAX / 3;
    let mut edge = vec![];
    for x in [0, 1, third - 1, third, third + 1, 2 * third - 1, 2 * third, 2 * third + 1, u32::MAX - 2, u32::MAX] {
        let k = single(&mut *one, &tape, x, w[0])?;
        if k < 3 {
            edge.push((x, k));
        }
    }
    let p = 9;
    let (params, h) = if kind == 2 {
        let keys = keyset(0, 1);
        let (kvs, _) = kvs_of(&keys, 0, p, p);
        let db = KVDatabase::new(&kvs, 1, p, p).map_err(|e| e.to_string())?;
        let f = db.get_filter_params().clone();
        let kp = KVParams::new(&db, n, f.seed, f.segment_length, f.segment_length_mask, f.segment_count_length);
        let h = kp.get_total_records();
        let ev = f.get_hash_evals(&keys[0]);
        (Some(Params::Kv(kp, keys[0], ev)), h)
    } else if kind == 1 {
        let h = 64.min((n + PER - 1) / PER);
        let db = IndexDatabase::new(&b64s(&elements(0, h, p)), h, p, p).map_err(|e| e.to_string())?;
        (Some(Params::Index(IndexParams::new(&db, n))), h)
    } else {
        (None, n)
    };
    let d = delta(p);
    let zeros = cp_from(&vec![vec![0u32]; if kind == 0 { n } else { 0 }]);
    // all coordinates with the given word at each draw
    let draws = if kind == 0 { n } else { n + h };
    let mut run = |c: &mut Case, word: &dyn Fn(usize) -> u32, err0: bool| -> Result<Vec<u32>, String> {
        let mut out = vec![0u32; n];
        tape.fill(w[0]);
        let mut go = |f: &mut dyn FnMut() -> R| -> R {
            tape.set(|v| {
                v.clear();
                v.extend((0..draws).map(word));
            });
            f()?;
            if tape.used() != draws {
                return Err(format!("{} draws for {} coordinates", tape.used(), draws));
            }
            c.steps(1);
            Ok(())
        };
        if kind == 0 {
            go(&mut || {
                out = zeros.mult_left(&[0]).map_err(|e| e.to_string())?;
                Ok(())
            })?;
            return Ok(out);
        }
        for g in (0..n).step_by(PER * h) {
            let mut cols = vec![vec![0u32; n]; h];
            for i in g..n.min(g + PER * h) {
                cols[(i - g) / PER][i] = 4u32.pow((i % PER) as u32 + 1);
            }
            let cp = cp_from(&cols);
            go(&mut || {
                let mut q: Vec<u32> = match params.as_ref().unwrap() {
                    Params::Index(ip) => {
                        let mut qp = generate_index_query_params(&cp, ip).map_err(|e| e.to_string())?;
                        let mut q = qp.generate_query(0).map_err(|e| e.to_string())?.as_slice().to_vec();
                        q[0] = q[0].wrapping_sub(d);
                        q
                    }
                    Params::Kv(kp, key, ev) => {
                        let mut qp = generate_kv_query_params(&cp, kp).map_err(|e| e.to_string())?;
                        let mut q = qp.generate_query(key).map_err(|e| e.to_string())?.as_slice().to_vec();
                        for &x in ev {
                            q[x] = q[x].wrapping_sub(d);
                        }
                        q
                    }
                };
                for (j, x) in q.iter_mut().enumerate() {
                    let a = g + j * PER;
                    if a >= n {
                        break;
                    }
                    // the error is the lowest digit; it may be any here
                    if !err0 {
                        let e = match *x & 3 {
                            3 => u32::MAX,
                            y => y,
                        };
                        *x = x.wrapping_sub(e);
                    }
                    balanced4(*x, &mut out[a..n.min(a + PER)])?;
                }
                Ok(())
            })?;
        }
        Ok(out)
    };
    let zero = run(c, &|_| w[0], true).map_err(|e| format!("{} of {} coordinates: {}", NAMES[kind], n, e))?;
    if zero.iter().any(|&x| x != 0) {
        return Err("words for 0 give another value".into());
    }
    let mut at = vec![0usize; n];
    let mut f = 1usize;
    while f < draws {
        let out = run(c, &|k| w[k / f % 3], false).map_err(|e| format!("{} of {} coordinates: {}", NAMES[kind], n, e))?;
        for i in 0..n {
            at[i] += f * class(out[i]).map_err(|e| format!("coordinate {} of {}: {}", i, n, e))?;
        }
        f *= 3;
    }
    let mut taken = vec![usize::MAX; draws];
    for i in 0..n {
        if at[i] >= draws {
            return Err(format!("{} coordinate {} of {} is not decided by one draw", NAMES[kind], i, n));
        }
        if taken[at[i]] != usize::MAX {
            return Err(format!("{} coordinates {} and {} of {} are decided by the same draw", NAMES[kind], taken[at[i]], i, n));
        }
        taken[at[i]] = i;
    }
    for r in 0..edge.len() {
        let out = run(c, &|k| edge[(k + r) % edge.len()].0, false)?;
        for i in 0..n {
            let (x, k) = edge[(at[i] + r) % edge.len()];
            if class(out[i])? != k {
                return Err(format!("{} coordinate {} of {}: word {:#x} gives {:#x}, at the first coordinate class {}", NAMES[kind], i, n, x, out[i], k));
            }
        }
    }
    c.states_by_construction(n as u64 * edge.len() as u64);
    c.traces(edge.len() as u64);
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.workers = 1;
    pl.bound("release build: all 2^32 generator words through the error sampler and through the secret sampler of index parameters (thorough: of keyword parameters too); debug build and keyword parameters: 10^6 strided words and the neighbourhoods of the interval bounds");
    pl.bound("runs of 0..6 rejected words before each of the three values");
    pl.bound("vectors of 1 to 40, and of 2^k-1, 2^k and 2^k+1 coordinates up to 2^14 (secrets; thorough 2^17; debug build 2^11) and 2^20 (errors): each coordinate decided by a draw of its own, every interval end at every position");
    pl.assume("a coordinate is decided by one accepted 32-bit word of the generator (checked: number of draws, independence of the words after)");
    for kind in 0..3 {
        if !checked_build() && (kind < 2 || th) {
            pl.case(format!("full {}", NAMES[kind]), move |c| full(c, kind));
        }
        pl.case(format!("partial {}", NAMES[kind]), move |c| partial(c, kind));
        pl.case(format!("redraw {}", NAMES[kind]), move |c| redraw(c, kind));
    }
    let mut ns: Vec<usize> = (1..=40).collect();
    for k in 6..=20u32 {
        ns.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    ns.extend([100, 500, 1000, 1572, 3000]);
    for kind in 0..3 {
        let top = match (kind, checked_build(), th) {
            (0, _, _) => (1 << 20) + 1,
            (_, true, false) => 2049,
            (1, _, false) => (1 << 14) + 1,
            (_, _, false) => (1 << 13) + 1,
            (1, _, _) => (1 << 17) + 1,
            _ => (1 << 16) + 1,
        };
        for &n in ns.iter().filter(|&&n| n <= top) {
            pl.case(format!("{} of {} coordinates", NAMES[kind], n), move |c| long(c, kind, n));
        }
    }
}
