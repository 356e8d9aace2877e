//! C21: operations in different threads do not influence one another.
use super::ops::*;
use crate::sched::*;
use crate::util::scratch;
use std::time::Duration;

const STREAMS: [u64; 3] = [11, 22, 33];

/// Everything the world needs comes from another process, so that the first
/// execution of an operation here is the first of this process.
fn world() -> Result<(World, crate::util::Scratch), String> {
    let sc = scratch("ops")?;
    let d = sc.path.clone();
    let b = in_child(
        move || World::new(3, 2, 2, 2, &d).and_then(|w| bincode::serialize(&w).map_err(|e| e.to_string())),
        Duration::from_secs(60),
    )??;
    let w = bincode::deserialize(&b).map_err(|e| e.to_string())?;
    Ok((w, sc))
}
fn alone(w: &World, a: Act, v: usize, stream: u64) -> (Obs, u64) {
    let r = run(vec![Box::new(move || a(w, v)) as Op<Obs>], &[stream], &[]);
    (obs(&r.results[0]), r.blocks[0])
}
fn broken(m: String) -> Found {
    Found {
        violation: Some((vec![], m)),
        ..Default::default()
    }
}
/// Operations that draw from the generator must be given the same draws; the
/// results of all others must not depend on the stream.
pub fn pair(ctx: &Ctx, a: &str, b: &str, limit: u64) -> Found {
    let (w, _sc) = match world() {
        Ok(x) => x,
        Err(e) => return broken(format!("preparing the objects failed: {}", e)),
    };
    let (fa, fb) = (op(a), op(b));
    let (wa, _) = alone(&w, fa, 0, STREAMS[0]);
    let (wb, _) = alone(&w, fb, 1, STREAMS[1]);
    for (n, r) in [(a, &wa), (b, &wb)] {
        if let Err(e) = r {
            return broken(format!("operation {} alone: {}", n, e));
        }
    }
    let wr = &w;
    let x = Explore {
        want: [wa, wb],
        label: format!("{} (thread 0), {} (thread 1)", a, b),
        mk: Box::new(move || {
            vec![
                Box::new(move || fa(wr, 0)) as Op<Obs>,
                Box::new(move || fb(wr, 1)) as Op<Obs>,
            ]
        }),
        streams: [STREAMS[0], STREAMS[1]],
    };
    x.all(ctx, limit)
}
/// The same, each execution in a process that never ran the code before.
fn cold(ctx: &Ctx, a: &str, b: &str, pre: usize, limit: u64) -> Found {
    let (w, _sc) = match world() {
        Ok(x) => x,
        Err(e) => return broken(format!("preparing the objects failed: {}", e)),
    };
    let (fa, fb) = (op(a), op(b));
    let go = |s: &[(usize, u64)], which: u8| -> Result<(Vec<Obs>, Vec<u64>, u64), String> {
        let w = &w;
        in_child(
            move || {
                let mut ops = vec![];
                let mut st = vec![];
                if which & 1 != 0 {
                    ops.push(Box::new(move || fa(w, 0)) as Op<Obs>);
                    st.push(STREAMS[0]);
                }
                if which & 2 != 0 {
                    ops.push(Box::new(move || fb(w, 1)) as Op<Obs>);
                    st.push(STREAMS[1]);
                }
                let r = run(ops, &st, s);
                (r.results.iter().map(obs).collect::<Vec<_>>(), r.blocks, r.takeovers)
            },
            Duration::from_secs(20),
        )
    };
    let mut f = Found::default();
    let (ra, rb) = match (go(&[], 1), go(&[], 2)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => return broken(format!("{} or {} alone: {}", a, b, e)),
    };
    let want = [ra.0[0].clone(), rb.0[0].clone()];
    let mut one = |f: &mut Found, s: &[(usize, u64)]| {
        let r = match go(s, 3) {
            Ok(r) => r,
            Err(e) => {
                f.violation = Some((flat(s), format!("{} || {}: {}", a, b, e)));
                return;
            }
        };
        f.executions += 1;
        f.states += 1;
        f.transitions += r.1.iter().sum::<u64>();
        f.takeovers += r.2;
        for t in 0..2 {
            if r.0[t] != want[t] {
                f.violation = Some((
                    flat(s),
                    format!(
                        "first use in a process, {} (thread 0) and {} (thread 1): under the schedule {:?} thread {} observes {}, alone {}",
                        a, b, s.iter().map(|(w, l)| (*w, *l as i64)).collect::<Vec<_>>(), t, show(&r.0[t]), show(&want[t])
                    ),
                ));
            }
        }
    };
    if let Some(c) = &ctx.forced {
        one(&mut f, &unflat(c));
        return f;
    }
    for p in 0..=pre {
        if p == 2 && ra.1[0] * rb.1[0] * 2 > limit {
            continue;
        }
        schedules(ra.1[0], rb.1[0], p, |s| {
            one(&mut f, s);
            if f.takeovers > 3000 {
                f.incomplete = true;
            }
            f.violation.is_none() && !f.incomplete
        });
    }
    f.samples.push(format!("{} and {} blocks: {} schedules", ra.1[0], rb.1[0], f.executions));
    f
}
/// Three threads: the first is interrupted once by each of the others, or
/// they interrupt each other in turn.
pub fn three(ctx: &Ctx, names: [&'static str; 3]) -> Found {
    let (w, _sc) = match world() {
        Ok(x) => x,
        Err(e) => return broken(format!("preparing the objects failed: {}", e)),
    };
    let fs = [op(names[0]), op(names[1]), op(names[2])];
    let vs = [0usize, 1, 0];
    let mut want = vec![];
    let mut n = vec![];
    for t in 0..3 {
        let (r, k) = alone(&w, fs[t], vs[t], STREAMS[t]);
        want.push(r);
        n.push(k);
    }
    let mut f = Found::default();
    let wr = &w;
    let mut one = |f: &mut Found, s: &[(usize, u64)]| {
        let ops: Vec<Op<Obs>> = (0..3)
            .map(|t| {
                let a = fs[t];
                let v = vs[t];
                Box::new(move || a(wr, v)) as Op<Obs>
            })
            .collect();
        let r = run(ops, &STREAMS, s);
        f.executions += 1;
        f.states += 1;
        f.transitions += r.blocks.iter().sum::<u64>();
        f.takeovers += r.takeovers;
        for t in 0..3 {
            let got = obs(&r.results[t]);
            if got != want[t] && f.violation.is_none() {
                f.violation = Some((
                    flat(s),
                    format!("{:?}: under the schedule {:?} thread {} observes {}, alone {}", names, s.iter().map(|(w, l)| (*w, *l as i64)).collect::<Vec<_>>(), t, show(&got), show(&want[t])),
                ));
            }
        }
    };
    if let Some(c) = &ctx.forced {
        one(&mut f, &unflat(c));
        return f;
    }
    // a runs k, b runs j, c runs to its end, then b, then a (and all orders)
    for perm in [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        let [x, y, z] = perm;
        for k in 1..=n[x] {
            for j in 1..=n[y] {
                for tail in [[y, x], [x, y]] {
                    one(&mut f, &[(x, k), (y, j), (z, REST), (tail[0], REST), (tail[1], REST)]);
                    if f.violation.is_some() || f.takeovers > 3000 {
                        f.incomplete = f.violation.is_none();
                        return f;
                    }
                }
            }
        }
    }
    f.samples.push(format!("{:?} blocks: {} schedules", n, f.executions));
    f
}

pub fn plan(pl: &mut SPlan) {
    let th = pl.thorough();
    let limit = if th { 3_000_000 } else { 30_000 };
    pl.bound("every pair of 22 operations (answering, building, deriving, preparing, querying, decoding, reading, copying, saving, filters) in two threads, on the same or other objects: every schedule with at most one preemption, at basic-block granularity of the real code");
    pl.bound(format!("two preemptions for pairs with at most {} such schedules; first use in a process: one preemption for every operation with itself", limit));
    pl.assume("a basic block of the optimized build is executed without interruption; weak memory effects are not explored");
    for i in 0..OPS.len() {
        for j in i..OPS.len() {
            let (a, b) = (OPS[i].0, OPS[j].0);
            pl.case(format!("{} || {}", a, b), move |c| pair(c, a, b, limit));
            if i == j {
                let (pre, lim) = if th { (2, 60_000) } else { (1, 0) };
                pl.case(format!("cold {} || {}", a, b), move |c| cold(c, a, b, pre, lim));
            }
        }
    }
    for names in [
        ["query", "query", "keyword query"],
        ["answer of one shard", "answer of one shard", "query"],
        ["derive", "derive", "query"],
    ] {
        if th || names[0] == "query" || names[0] == "derive" {
            pl.case(format!("three {:?}", names), move |c| three(c, names));
        }
    }
}
