//! C07: server answers are the exact product and depend on nothing else.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use std::sync::{mpsc, Arc};

const ALPHA: [u32; 6] = [0, 1, u32::MAX, 0x8000_0000, 2, 0x0001_0001];

/// Product of q with the matrix (rows), per column.
fn product(q: &[u32], rows: &[Vec<u32>]) -> Vec<u32> {
    let w = rows[0].len();
    let mut out = vec![0u64; w];
    for (x, r) in q.iter().zip(rows) {
        for j in 0..w {
            out[j] = (out[j] + *x as u64 * r[j] as u64) & 0xffff_ffff;
        }
    }
    out.into_iter().map(|x| x as u32).collect()
}

fn index_shard(
    m: usize,
    e: usize,
    p: usize,
    kind: usize,
    dim: usize,
) -> Result<(Shard, Vec<Vec<u32>>), String> {
    let el = elements(kind, m, e);
    let s = Shard::from_base64_strings(&b64s(&el), dim, m, e, p).map_err(|x| x.to_string())?;
    Ok((s, el.iter().map(|b| digits(b, e, p)).collect()))
}
fn kv_shard(
    n: usize,
    e: usize,
    p: usize,
    kind: usize,
) -> Result<(KVShard, Vec<Vec<u32>>), String> {
    let keys = keyset(0, n);
    let (kvs, _) = kvs_of(&keys, kind, e, p);
    let s = KVShard::new(&kvs, 1, n, e, p).map_err(|x| x.to_string())?;
    let cols = s.get_db().entries.clone();
    let h = cols[0].len();
    let rows = (0..h).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
    Ok((s, rows))
}

fn judge(s: &dyn Server, rows: &[Vec<u32>], q: &[u32]) -> Result<Vec<u32>, String> {
    let got = s.answer_words(q)?;
    let want = product(q, rows);
    if got != want {
        let j = (0..want.len()).find(|&j| got.get(j) != want.get(j)).unwrap_or(want.len());
        return Err(format!(
            "height {} width {}: query {:x?}...: column {} of the answer ({} words) is {:x?}, the product is {:x?}",
            rows.len(),
            rows[0].len(),
            trunc(q),
            j,
            got.len(),
            got.get(j),
            want.get(j)
        ));
    }
    Ok(got)
}

fn alphabet(c: &mut Case, m: usize, w: usize, p: usize) -> R {
    for kind in 0..KINDS {
        let (s, rows) = index_shard(m, w * p, p, kind, 1)?;
        let mut n = 0u64;
        let mut h = Fnv2::default();
        c.explore(|c, ch| {
            let q: Vec<u32> = (0..m).map(|_| *ch.pick(&ALPHA)).collect();
            let r = judge(&s, &rows, &q)?;
            n += 1;
            h.add(&r);
            if n < 4096 {
                c.state(&(kind, &q, &r));
            } else {
                c.states_by_construction(1);
            }
            c.steps(1);
            c.trace();
            Ok(())
        })?;
        c.outcome(&h.0);
    }
    Ok(())
}
#[derive(Default)]
struct Fnv2(u64);
impl Fnv2 {
    fn add(&mut self, r: &[u32]) {
        self.0 = self.0.rotate_left(7) ^ h64(r);
    }
}

fn structured(c: &mut Case, s: &dyn Server, rows: &[Vec<u32>], stride: usize) -> R {
    let h = rows.len();
    let mut qs: Vec<Vec<u32>> = vec![];
    for a in ALPHA {
        qs.push(vec![a; h]);
        qs.push((0..h).map(|i| if i % 2 == 0 { a } else { a.wrapping_neg() }).collect());
    }
    qs.push((0..h).map(|i| sm(i as u64) as u32).collect());
    qs.push((0..h).map(|i| i as u32).collect());
    qs.push((0..h).map(|i| 1u32 << (i % 32)).collect());
    for q in &qs {
        let r = judge(s, rows, q)?;
        c.state(&(h, q.len(), &r));
        c.outcome(&r);
        c.steps(1);
        c.trace();
    }
    let mut q = vec![0u32; h];
    for i in 0..h {
        if i % stride != 0 && i + 1 != h {
            continue;
        }
        for v in [1u32, u32::MAX, 0x8000_0001] {
            q[i] = v;
            let r = judge(s, rows, &q)?;
            c.state(&(h, i, v, &r));
            c.steps(1);
            c.trace();
        }
        q[i] = 0;
    }
    Ok(())
}

/// A thread that performs calls one at a time when told to.
struct Worker {
    tx: mpsc::Sender<(usize, usize)>,
    rx: mpsc::Receiver<Result<Vec<u32>, String>>,
}
struct Pool {
    shards: Vec<Arc<dyn Server>>,
    queries: Vec<Vec<Vec<u32>>>,
    want: Vec<Vec<Option<Vec<u32>>>>,
    workers: Vec<Worker>,
}
fn call(s: &dyn Server, q: &[u32]) -> Result<Vec<u32>, String> {
    no_panic(|| s.answer_words(q)).unwrap_or_else(|p| Err(format!("panic: {}", p)))
}
fn pool() -> Result<Pool, String> {
    let (a, ra) = index_shard(3, 18, 9, 0, 2)?;
    let (b, rb) = index_shard(3, 18, 9, 6, 2)?;
    let (k, rk) = kv_shard(1, 18, 9, 0)?;
    let a2 = a.clone();
    let shards: Vec<Arc<dyn Server>> =
        vec![Arc::new(a), Arc::new(b), Arc::new(k), Arc::new(a2)];
    let rows = [ra.clone(), rb, rk, ra];
    let mut queries = vec![];
    let mut want = vec![];
    for r in &rows {
        let h = r.len();
        let qs: Vec<Vec<u32>> = vec![
            (0..h).map(|i| sm(i as u64) as u32).collect(),
            (0..h).map(|i| sm(i as u64 + 99) as u32).collect(),
            // one short: an error, and no influence on what follows
            vec![7; h - 1],
        ];
        want.push(
            qs.iter()
                .map(|q| if q.len() == h { Some(product(q, r)) } else { None })
                .collect(),
        );
        queries.push(qs);
    }
    let mut p = Pool { shards, queries, want, workers: vec![] };
    for _ in 0..2 {
        let (tx, rx2) = mpsc::channel::<(usize, usize)>();
        let (tx2, rx) = mpsc::channel();
        let sh = p.shards.clone();
        let qs = p.queries.clone();
        std::thread::spawn(move || {
            while let Ok((s, q)) = rx2.recv() {
                if tx2.send(call(&*sh[s], &qs[s][q])).is_err() {
                    break;
                }
            }
        });
        p.workers.push(Worker { tx, rx });
    }
    Ok(p)
}
fn history(c: &mut Case, depth: usize, threads: usize, shards: usize, first: usize) -> R {
    let p = pool()?;
    c.explore(|c, ch| {
        let mut log = vec![];
        for d in 0..depth {
            let (s, q) = if d == 0 {
                (first / 3, first % 3)
            } else {
                (ch.choose(shards), ch.choose(3))
            };
            let t = if threads == 1 { 0 } else { ch.choose(threads) };
            let r = if threads == 1 {
                call(&*p.shards[s], &p.queries[s][q])
            } else {
                p.workers[t].tx.send((s, q)).map_err(|_| "harness: worker gone")?;
                p.workers[t].rx.recv().map_err(|_| "harness: worker gone")?
            };
            log.push((s, q, t));
            match (&p.want[s][q], &r) {
                (Some(w), Ok(g)) if w == g => {}
                (None, Err(e)) if !e.starts_with("panic") => {}
                _ => {
                    return Err(format!(
                        "after calls (shard, query, thread) {:?}: answer {:x?}, expected {:x?}",
                        log, r, p.want[s][q]
                    ))
                }
            }
            c.steps(1);
            c.state(&log);
            c.outcome(&(s, q, h64(&r.is_ok())));
        }
        c.trace();
        Ok(())
    })
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let top = if th { 7 } else { 6 };
    pl.bound(format!("all query vectors over {{0,1,2,2^16+1,2^31,2^32-1}} for heights 1..{} x widths 1..3 x plaintext bits {{1,8,17,31}} x 8 contents", top));
    pl.bound("unit, constant, alternating and ramp vectors for heights and widths up to 70000, index and keyword");
    pl.bound(format!("{} answers in a row to each of five queries, two shards in turn", if th { 1_000_000 } else { 70_000 }));
    pl.bound("all call sequences of length 5 over two shards x three queries (one malformed), length 4 over four shards (index, index, keyword, clone), and length 4 with every assignment to two real threads");
    pl.assume("in the call sequences a call is an atomic step; interleavings inside calls are explored by the sched build (basic blocks, two preemptions)");
    for m in 1..=top {
        for w in 1..=3usize {
            for p in [1usize, 8, 17, 31] {
                if m >= 6 && (w == 2 || p == 8) {
                    continue;
                }
                pl.case(format!("alphabet m={} w={} p={}", m, w, p), move |c| {
                    alphabet(c, m, w, p)
                });
            }
        }
    }
    for (m, e, p) in [
        (1, 31, 31),
        (2, 64, 8),
        (7, 33, 11),
        (64, 256, 11),
        (255, 17, 8),
        (256, 16, 4),
        (257, 100, 7),
        (1000, 3000, 1),
        (4096, 40, 20),
        (65535, 9, 9),
        (65536, 8, 8),
        (70_000, 31, 31),
        (2, 70_000, 1),
        (3, 66_000 * 9, 9),
        (66_000, 300, 1),
    ] {
        for kind in [0usize, 1] {
            pl.case(format!("index m={} e={} p={} kind={}", m, e, p, kind), move |c| {
                let (s, rows) = index_shard(m, e, p, kind, 1)?;
                structured(c, &s, &rows, (m * e / p / 20_000).max(m / 300).max(1))
            });
        }
    }
    for (n, e, p) in [(1, 10, 10), (2, 20, 8), (3, 33, 11), (50, 31, 31), (300, 256, 11), (5000, 9, 9), (60_000, 16, 16), (1, 70_000 * 8, 8)] {
        pl.case(format!("kv n={} e={} p={}", n, e, p), move |c| {
            let (s, rows) = kv_shard(n, e, p, 0)?;
            structured(c, &s, &rows, (rows.len() / 300).max(1))
        });
    }
    // DatabaseMatrix::vec_mult column by column
    pl.case("vec_mult", |c| {
        for (m, e, p) in [(1usize, 9usize, 9usize), (3, 33, 11), (5, 31, 31), (40, 100, 7)] {
            let (s, rows) = index_shard(m, e, p, 0, 1)?;
            let (k, krows) = kv_shard(m, e, 9, 0)?;
            for a in ALPHA {
                for b in ALPHA {
                    let mk = |h: usize| -> Vec<u32> {
                        (0..h).map(|i| if i % 3 == 0 { a } else { b }).collect()
                    };
                    let q = mk(m);
                    let want = product(&q, &rows);
                    for (j, w) in want.iter().enumerate() {
                        if s.get_db().vec_mult(&q, j) != *w {
                            return Err(format!("index vec_mult column {}", j));
                        }
                        c.steps(1);
                    }
                    let q = mk(krows.len());
                    let want = product(&q, &krows);
                    for (j, w) in want.iter().enumerate() {
                        if k.get_db().vec_mult(&q, j) != *w {
                            return Err(format!("kv vec_mult column {}", j));
                        }
                        c.steps(1);
                    }
                    c.state(&(m, a, b));
                    c.trace();
                }
            }
        }
        Ok(())
    });
    for first in 0..6usize {
        let d = if th { 7 } else { 6 };
        pl.case(format!("history 2 shards first={}", first), move |c| history(c, d, 1, 2, first));
        let d = if th { 5 } else { 4 };
        pl.case(format!("threads first={}", first), move |c| history(c, d, 2, 2, first));
    }
    for first in 0..12usize {
        let d = if th { 5 } else { 4 };
        pl.case(format!("history 4 shards first={}", first), move |c| history(c, d, 1, 4, first));
    }
    // the same answer for ever
    pl.case("repetition", move |c| {
        let (s, rows) = index_shard(3, 18, 9, 0, 2)?;
        let (k, krows) = kv_shard(2, 18, 9, 0)?;
        let n = if c.thorough() { 1_000_000 } else { 70_000 };
        // one query at a time, so that every column product of it is reached
        // at every count modulo 2^16
        for v in 0..5usize {
            let mk = |h: usize| -> Vec<u32> {
                (0..h)
                    .map(|i| match v {
                        0 => u32::MAX,
                        1 => 1 << 31,
                        2 => 0,
                        3 => sm(i as u64) as u32,
                        _ => [5, u32::MAX, 9][i % 3],
                    })
                    .collect()
            };
            let (q, kq) = (mk(3), mk(krows.len()));
            let (w, kw) = (product(&q, &rows), product(&kq, &krows));
            for i in 0..n {
                if s.answer_words(&q)? != w {
                    return Err(format!("query {}: answer number {} of the index shard differs", v, i + 1));
                }
                if k.answer_words(&kq)? != kw {
                    return Err(format!("query {}: answer number {} of the keyword shard differs", v, i + 1));
                }
                c.steps(2);
            }
            c.state(&v);
            c.trace();
        }
        Ok(())
    });
    // plausibility of atomicity
    pl.case("free running", move |c| {
        let p = Arc::new(pool()?);
        let n = 20_000;
        let hs: Vec<_> = (0..8usize)
            .map(|t| {
                let sh = p.shards.clone();
                let qs = p.queries.clone();
                let want = p.want.clone();
                std::thread::spawn(move || -> Result<(), String> {
                    for i in 0..n {
                        let s = (i + t) % 4;
                        let q = (i / 3 + t) % 2;
                        let r = call(&*sh[s], &qs[s][q])?;
                        if Some(&r) != want[s][q].as_ref() {
                            return Err(format!("thread {} call {}: answer {:x?}", t, i, r));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        for h in hs {
            h.join().map_err(|_| "thread died".to_string())??;
        }
        c.steps(8 * n as u64);
        Ok(())
    });
}

/// Interleavings inside the answers, at basic-block granularity.
pub fn plan_sched(pl: &mut crate::sched::SPlan) {
    let th = pl.thorough();
    let limit = if th { 2_000_000 } else { 150_000 };
    pl.bound(format!("two concurrent answers (same or different shards, index and keyword, refused queries), and an answer concurrent with every other operation: every schedule of one preemption, and of two where there are at most {} of them, between any two basic blocks; three concurrent answers with one interruption each", limit));
    let mine = ["answer", "answer of one shard", "keyword answer", "keyword answer of one shard", "refused query"];
    for (i, a) in mine.iter().enumerate() {
        for b in &mine[i..] {
            let (a, b) = (*a, *b);
            pl.case(format!("{} || {}", a, b), move |c| super::c21::pair(c, a, b, limit));
        }
        if i < 4 {
            for o in super::ops::OPS {
                if mine.contains(&o.0) {
                    continue;
                }
                let (a, b) = (*a, o.0);
                pl.case(format!("{} || {}", a, b), move |c| super::c21::pair(c, a, b, if th { 200_000 } else { 0 }));
            }
        }
    }
    if th {
        pl.case("three index", |c| super::c21::three(c, ["answer of one shard", "answer of one shard", "answer"]));
        pl.case("three mixed", |c| super::c21::three(c, ["answer", "keyword answer", "answer of one shard"]));
    }
}
