//! C19: every shard draws its own full-entropy public seeds.
//!
//! The generator is a controlled byte stream. Whatever the size of the
//! requests, each byte of each seed must be a bijective image of a stream
//! byte of its own.
use super::c18::good_filter_seed;
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Default)]
struct Tape {
    bytes: Vec<u8>,
    pos: usize,
    calls: u64,
    fail_at: Option<u64>,
}
struct Gen(Rc<RefCell<Tape>>);
impl Gen {
    fn install(bytes: Vec<u8>, fail_at: Option<u64>) -> Gen {
        let t = Rc::new(RefCell::new(Tape { bytes, fail_at, ..Default::default() }));
        let u = t.clone();
        getrandom::set_source(Some(Box::new(move |d: &mut [u8]| {
            let mut t = u.borrow_mut();
            let n = t.calls;
            t.calls += 1;
            if t.fail_at.map_or(false, |f| n >= f) {
                return false;
            }
            for x in d.iter_mut() {
                *x = if t.pos < t.bytes.len() {
                    t.bytes[t.pos]
                } else {
                    (sm(t.pos as u64) >> 7) as u8
                };
                t.pos += 1;
            }
            true
        })));
        Gen(t)
    }
    fn used(&self) -> usize {
        self.0.borrow().pos
    }
    fn calls(&self) -> u64 {
        self.0.borrow().calls
    }
}
impl Drop for Gen {
    fn drop(&mut self) {
        getrandom::set_source(None);
    }
}

#[derive(Clone, Copy, Debug)]
struct Spec {
    kv: bool,
    kind: usize,
    n: usize,
    dim: usize,
    e: usize,
    p: usize,
}
/// Builds a shard and returns the seeds it publishes: the matrix seed and,
/// for keyword shards, the filter seed.
fn seeds_of(s: &Spec) -> Result<Vec<[u8; 32]>, String> {
    if s.kv {
        let (kvs, _) = kvs_of(&keyset(s.kind, s.n), s.kind, s.e, s.p);
        let sh = KVShard::new(&kvs, s.dim, s.n, s.e, s.p).map_err(|e| format!("build: {}", e))?;
        let b = sh.get_base_params();
        let f = b.get_filter_params();
        if f.seed != sh.get_db().get_filter_params().seed {
            return Err("the published filter seed is not the database's".into());
        }
        Ok(vec![f.seed, b.get_public_seed()])
    } else {
        let el = b64s(&elements(s.kind, s.n, s.e));
        let sh = Shard::from_base64_strings(&el, s.dim, s.n, s.e, s.p).map_err(|e| format!("build: {}", e))?;
        Ok(vec![sh.get_base_params().get_public_seed()])
    }
}
/// Builds the shards in sequence on one stream; the filter library's own
/// generator is warmed up before.
fn run(specs: &[Spec], bytes: Vec<u8>) -> Result<(Vec<[u8; 32]>, usize, u64), String> {
    prewarm();
    let g = Gen::install(bytes, None);
    let mut out = vec![];
    for s in specs {
        out.extend(seeds_of(s)?);
    }
    Ok((out, g.used(), g.calls()))
}

/// For the shards built in sequence: every stream byte is varied over all its
/// values, alone.
fn influence(c: &mut Case, specs: &[Spec]) -> R {
    let need: usize = specs.iter().map(|s| if s.kv { 64 } else { 32 }).sum();
    // a base stream with which no filter seed has to be redrawn
    let mut base = vec![];
    let mut ok = false;
    for t in 0..50u64 {
        base = (0..need + 64).map(|i| (sm(t << 32 | i as u64) >> 9) as u8).collect::<Vec<u8>>();
        let (_, used, _) = run(specs, base.clone())?;
        if used <= need {
            ok = true;
            break;
        }
    }
    let (s0, used, _) = run(specs, base.clone())?;
    if used < need {
        return Err(format!("{:?}: only {} random bytes are drawn for {} seeds of 32 bytes", specs, used, s0.len()));
    }
    if !ok {
        // redrawn filter seeds shift the stream; still judged below
        c.outcome(&"redrawn");
    }
    let span = used.max(need).min(base.len() * 4);
    while base.len() < span {
        let i = base.len();
        base.push((sm(i as u64) >> 7) as u8);
    }
    let flat0: Vec<u8> = s0.iter().flatten().cloned().collect();
    // influence[j] = stream bytes that change seed byte j (and nothing else)
    let mut own: Vec<Vec<usize>> = vec![vec![]; flat0.len()];
    for pos in 0..span {
        let mut images: Vec<HashSet<u8>> = vec![HashSet::new(); flat0.len()];
        let mut changed: HashSet<usize> = HashSet::new();
        let mut shifted = false;
        for v in 0..=255u8 {
            let mut b = base.clone();
            b[pos] = v;
            let (s, u, _) = run(specs, b)?;
            if u != used {
                // a filter seed that does not work was redrawn
                shifted = true;
                continue;
            }
            let flat: Vec<u8> = s.iter().flatten().cloned().collect();
            for j in 0..flat.len() {
                images[j].insert(flat[j]);
                if flat[j] != flat0[j] {
                    changed.insert(j);
                }
            }
            c.steps(1);
            c.state(&(&s, pos));
        }
        let want = if shifted { 100 } else { 256 };
        if changed.len() == 1 {
            let j = *changed.iter().next().unwrap();
            if images[j].len() < want {
                return Err(format!(
                    "{:?}: byte {} of seed {} takes only {} values when the random byte behind it takes all",
                    specs, j % 32, j / 32, images[j].len()
                ));
            }
            own[j].push(pos);
        }
        c.trace();
    }
    for j in 0..own.len() {
        if own[j].is_empty() {
            return Err(format!(
                "{:?}: byte {} of seed {} has no random byte of its own",
                specs,
                j % 32,
                j / 32
            ));
        }
    }
    c.outcome(&own);
    c.sample(format!("{} shards: {} seed bytes, each a bijection of its own of {} random bytes", specs.len(), own.len(), used));
    Ok(())
}

/// The seeds depend on the stream only.
fn independent(c: &mut Case) -> R {
    for stream in 0..if c.thorough() { 60u64 } else { 12 } {
        let bytes: Vec<u8> = (0..4000).map(|i| (sm(stream << 32 | i) >> 9) as u8).collect();
        let mut ix: Option<Vec<[u8; 32]>> = None;
        for kind in 0..4 {
            for n in [1usize, 2, 3, 9] {
                for (dim, e, p) in [(1usize, 8usize, 8usize), (4, 33, 11), (7, 9, 31)] {
                    let (s, _, _) = run(&[Spec { kv: false, kind, n, dim, e, p }], bytes.clone())?;
                    match &ix {
                        None => ix = Some(s),
                        Some(x) if *x != s => {
                            return Err(format!("kind={} n={} dim={} e={} p={}: the public seed depends on more than the generator", kind, n, dim, e, p))
                        }
                        _ => {}
                    }
                    c.steps(1);
                    c.trace();
                }
            }
        }
        // one key: no filter seed is refused
        let mut kx: Option<Vec<[u8; 32]>> = None;
        for kind in 0..4 {
            for (dim, e, p) in [(1usize, 8usize, 8usize), (4, 33, 11), (7, 9, 9)] {
                let (s, _, _) = run(&[Spec { kv: true, kind, n: 1, dim, e, p }], bytes.clone())?;
                match &kx {
                    None => kx = Some(s),
                    Some(x) if *x != s => return Err(format!("kind={} dim={} e={} p={}: the seeds of a keyword shard depend on more than the generator", kind, dim, e, p)),
                    _ => {}
                }
                c.steps(1);
                c.trace();
            }
        }
        c.state(&(stream, ix, kx));
    }
    Ok(())
}

/// All seeds of many shards are distinct, in sequence and across threads.
fn distinct(c: &mut Case, n: usize) -> R {
    let mut all: HashSet<[u8; 32]> = HashSet::new();
    let mut count = 0;
    let mut add = |c: &mut Case, v: Vec<[u8; 32]>| -> R {
        for s in v {
            count += 1;
            c.state(&s);
            if !all.insert(s) {
                return Err(format!("seed {} of the shards built occurs twice: {:x?}", count, s));
            }
        }
        Ok(())
    };
    for i in 0..n {
        let v = seeds_of(&Spec { kv: i % 2 == 0, kind: 0, n: 1 + i % 3, dim: 2, e: 8, p: 8 })?;
        add(c, v)?;
        c.steps(1);
    }
    let hs: Vec<_> = (0..8)
        .map(|t| {
            std::thread::spawn(move || {
                (0..n / 8)
                    .map(|i| seeds_of(&Spec { kv: (i + t) % 2 == 0, kind: 0, n: 1, dim: 1, e: 8, p: 8 }))
                    .collect::<Result<Vec<_>, String>>()
            })
        })
        .collect();
    for h in hs {
        for v in h.join().map_err(|_| "thread panicked".to_string())?? {
            add(c, v)?;
            c.steps(1);
        }
    }
    c.trace();
    c.sample(format!("{} seeds, all distinct", count));
    Ok(())
}

/// A failing generator yields no shard.
fn failing(c: &mut Case, s: Spec) -> R {
    let (_, _, calls) = run(&[s], vec![])?;
    for at in 0..calls {
        prewarm();
        let r = {
            let _g = Gen::install(vec![], Some(at));
            no_panic(|| seeds_of(&s))
        };
        if let Ok(Ok(x)) = r {
            return Err(format!("{:?}: a shard is built although the generator fails at request {} of {}: seeds {:x?}", s, at, calls, x));
        }
        c.steps(1);
        c.state(&(s.kv, s.n, at));
        c.trace();
    }
    Ok(())
}

/// The published seeds are those used: the values are found under the
/// published filter seed, the hint fits the published matrix seed.
fn used(c: &mut Case, n: usize) -> R {
    let keys = keyset(0, n);
    let (kvs, el) = kvs_of(&keys, 0, 18, 9);
    for t in 0..6u64 {
        let good = good_filter_seed(&keys)?;
        let mut pubs = [t as u8; 32];
        pubs[31] = 0xa5;
        let sh = {
            let _g = if t == 0 { None } else { Some(Env::install(&[], &[good, pubs])) };
            KVShard::new(&kvs, 3, n, 18, 9).map_err(|e| format!("build: {}", e))?
        };
        let cp = CommonParams::from(sh.get_base_params());
        if noise_ok(3 * sh.get_base_params().get_total_records(), 9) {
            for i in 0..n {
                let v = digits(&el[i], 18, 9);
                kv_roundtrip(c, &sh, sh.get_base_params(), &cp, &keys[i], &v, Some(&el[i]))?;
            }
        }
        let el2 = elements(t as usize, n, 18);
        let ix = Shard::from_base64_strings(&b64s(&el2), 3, n, 18, 9).map_err(|e| format!("build: {}", e))?;
        let cp = CommonParams::from(ix.get_base_params());
        for i in 0..n {
            index_roundtrip(c, &ix, &cp, &el2[i], 18, 9, i)?;
        }
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("every byte of the random stream behind 1 to 4 shards built in sequence (index, keyword, mixed) varied over all 256 values");
    pl.bound(format!("{} streams x 4 contents x shapes; {} shards in sequence and on 8 threads with distinct seeds; the generator failing at every request", if th { 60 } else { 12 }, if th { 400_000 } else { 30_000 }));
    pl.assume("randomness beyond the getrandom crate (none is used) would be seen as a seed without a random byte of its own");
    let ix = |kind, n, dim, e, p| Spec { kv: false, kind, n, dim, e, p };
    let kv = |kind, n, dim, e, p| Spec { kv: true, kind, n, dim, e, p };
    let mut seqs: Vec<Vec<Spec>> = vec![
        vec![ix(0, 1, 1, 8, 8)],
        vec![ix(0, 3, 5, 33, 11)],
        vec![kv(0, 1, 1, 8, 8)],
        vec![kv(0, 1, 4, 33, 11)],
        vec![kv(0, 2, 1, 9, 9)],
        vec![ix(0, 1, 1, 8, 8), ix(0, 1, 1, 8, 8)],
        vec![kv(0, 1, 1, 8, 8), kv(0, 1, 1, 8, 8)],
        vec![ix(0, 2, 1, 8, 8), kv(0, 1, 1, 8, 8), ix(0, 2, 1, 8, 8)],
    ];
    if th {
        for n in 1..8 {
            seqs.push(vec![ix(n, n, n, 8 * n, 8), kv(0, 1, n, 9 * n, 9), kv(1, 1, n, 9, 9), ix(n, n, n, 8 * n, 8)]);
            seqs.push(vec![kv(1, n + 1, 2, 10, 10)]);
        }
    }
    for (i, s) in seqs.into_iter().enumerate() {
        pl.case(format!("influence {}", i), move |c| influence(c, &s));
    }
    pl.case("independent", independent);
    pl.case("distinct", move |c| distinct(c, if th { 400_000 } else { 30_000 }));
    for s in [ix(0, 1, 1, 8, 8), ix(0, 5, 3, 20, 9), kv(0, 1, 1, 8, 8), kv(0, 1, 3, 30, 10), kv(0, 3, 1, 9, 9), kv(0, 40, 1, 9, 9)] {
        pl.case(format!("failing {:?}", s), move |c| failing(c, s));
    }
    for n in [1usize, 2, 5, 12] {
        pl.case(format!("used n={}", n), move |c| used(c, n));
    }
}
