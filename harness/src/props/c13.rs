//! C13: bad online messages get an error, not a crash or a wrong answer.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use std::sync::Arc;

enum Srv {
    Index(Shard, Vec<Vec<u8>>),
    Kv(KVShard, Vec<[u64; 4]>, Vec<Vec<u8>>),
}
#[derive(Clone)]
struct Spec {
    kv: bool,
    n: usize,
    dim: usize,
    e: usize,
    p: usize,
}
impl Spec {
    fn name(&self) -> String {
        format!("{} n={} dim={} e={} p={}", if self.kv { "kv" } else { "index" }, self.n, self.dim, self.e, self.p)
    }
    fn build(&self) -> Result<Srv, String> {
        if self.kv {
            let keys = keyset(0, self.n);
            let (kvs, el) = kvs_of(&keys, 0, self.e, self.p);
            Ok(Srv::Kv(
                KVShard::new(&kvs, self.dim, self.n, self.e, self.p).map_err(|e| format!("build: {}", e))?,
                keys,
                el,
            ))
        } else {
            let el = elements(0, self.n, self.e);
            Ok(Srv::Index(
                Shard::from_base64_strings(&b64s(&el), self.dim, self.n, self.e, self.p)
                    .map_err(|e| format!("build: {}", e))?,
                el,
            ))
        }
    }
}
impl Srv {
    fn respond(&self, q: &Query) -> Result<Result<Vec<u8>, String>, String> {
        no_panic(|| match self {
            Srv::Index(s, _) => s.respond(q).map_err(|e| e.to_string()),
            Srv::Kv(s, ..) => s.respond(q).map_err(|e| e.to_string()),
        })
    }
    fn height(&self) -> usize {
        match self {
            Srv::Index(s, _) => s.get_base_params().get_total_records(),
            Srv::Kv(s, ..) => s.get_base_params().get_total_records(),
        }
    }
    /// A complete valid exchange for target i.
    fn exchange(&self, c: &mut Case, e: usize, p: usize, i: usize) -> R {
        match self {
            Srv::Index(s, el) => {
                let cp = CommonParams::from(s.get_base_params());
                index_roundtrip(c, s, &cp, &el[i % el.len()], e, p, i % el.len())
            }
            Srv::Kv(s, keys, el) => {
                let cp = CommonParams::from(s.get_base_params());
                let i = i % keys.len();
                let v = digits(&el[i], e, p);
                kv_roundtrip(c, s, s.get_base_params(), &cp, &keys[i], &v, Some(&el[i]))
            }
        }
    }
    fn matrix(&self) -> Result<Vec<Vec<u32>>, String> {
        match self {
            Srv::Index(s, _) => matrix_of(s, self.height()),
            Srv::Kv(s, ..) => matrix_of(s, self.height()),
        }
    }
}
fn product(q: &[u32], mx: &[Vec<u32>]) -> Vec<u32> {
    let w = mx[0].len();
    (0..w).map(|j| (0..q.len()).fold(0u32, |a, i| a.wrapping_add(q[i].wrapping_mul(mx[i][j])))).collect()
}
fn fill(kind: usize, len: usize) -> Vec<u32> {
    (0..len)
        .map(|i| match kind {
            0 => 0,
            1 => sm(i as u64) as u32,
            2 => u32::MAX,
            _ => (i == 0) as u32,
        })
        .collect()
}

/// Every wrong length is refused, and valid queries are served in between.
fn lengths(c: &mut Case, sp: &Spec) -> R {
    let s = sp.build()?;
    let h = s.height();
    let mx = s.matrix()?;
    let mut lens: Vec<usize> = (0..=2 * h + 20).collect();
    for k in 1..20u32 {
        lens.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1, h + (1 << k), h * (k as usize)]);
    }
    lens.extend([h * 3, h * h, h + 65536, h + (1 << 16)]);
    lens.sort();
    lens.dedup();
    lens.retain(|&l| l <= 1 << 20);
    for (n, &l) in lens.iter().enumerate() {
        if l == h {
            continue;
        }
        for kind in 0..4 {
            let q = fill(kind, l);
            match s.respond(&query_from(&q)).map_err(|e| format!("{}: query of {} words (height {}): panic: {}", sp.name(), l, h, e))? {
                Ok(b) => {
                    return Err(format!(
                        "{}: query of {} words (height {}) is answered with {} bytes",
                        sp.name(),
                        l,
                        h,
                        b.len()
                    ))
                }
                Err(_) => {}
            }
            c.state(&(sp.name(), l, kind));
            c.steps(1);
            c.trace();
            let q = fill(kind, h);
            let r = s.respond(&query_from(&q))?.map_err(|e| format!("valid query refused after one of {} words: {}", l, e))?;
            if resp_of(&r)?.as_slice() != product(&q, &mx) {
                return Err(format!("{}: wrong answer after a query of {} words", sp.name(), l));
            }
            c.steps(1);
        }
        if n % 16 == 0 && noise_ok(3 * h, sp.p) {
            s.exchange(c, sp.e, sp.p, n)?;
        }
    }
    c.sample(format!("{}: {} wrong lengths", sp.name(), lens.len()));
    Ok(())
}

/// All histories of good and bad requests to two servers.
fn histories(c: &mut Case, a: &Spec, b: &Spec, depth: usize) -> R {
    let ss = [a.build()?, b.build()?];
    let mxs = [ss[0].matrix()?, ss[1].matrix()?];
    c.explore(|c, ch| {
        let mut hist = vec![];
        for _ in 0..depth {
            let t = ch.choose(2);
            let k = ch.choose(6);
            let h = ss[t].height();
            let l = match k {
                0 | 1 => h,
                2 => 0,
                3 => h - 1,
                4 => h + 1,
                _ => ss[1 - t].height(),
            };
            let q = fill(1 + k % 2, l);
            hist.push((t, l));
            let r = s_respond(&ss[t], &q).map_err(|e| format!("after {:?}: panic: {}", hist, e))?;
            match r {
                Ok(v) => {
                    if l != h {
                        return Err(format!("after (server, words) {:?}: answered, height {}", hist, h));
                    }
                    if v != product(&q, &mxs[t]) {
                        return Err(format!("after (server, words) {:?}: wrong answer", hist));
                    }
                }
                Err(e) => {
                    if l == h {
                        return Err(format!("after (server, words) {:?}: valid query refused: {}", hist, e));
                    }
                }
            }
            c.steps(1);
            c.state(&hist);
        }
        c.trace();
        Ok(())
    })
}
fn s_respond(s: &Srv, q: &[u32]) -> Result<Result<Vec<u32>, String>, String> {
    Ok(match s.respond(&query_from(q))? {
        Ok(b) => Ok(resp_of(&b)?.as_slice().to_vec()),
        Err(e) => Err(e),
    })
}

/// Rows outside the database.
fn rows(c: &mut Case, sp: &Spec) -> R {
    let s = sp.build()?;
    let sh = match &s {
        Srv::Index(s, _) => s,
        _ => return Ok(()),
    };
    let bp = sh.get_base_params();
    let cp = CommonParams::from(bp);
    let m = sp.n;
    let mut bad: Vec<usize> = (m..2 * m + 20).collect();
    for k in 1..64u32 {
        bad.extend([1usize << k, (1usize << k) - 1, (1usize << k).wrapping_add(m), (1usize << k).wrapping_add(m - 1)]);
    }
    for t in 0..m.min(4) {
        bad.extend([(1usize << 32) + t, (1usize << 16) + t, (1usize << 63) + t, usize::MAX - t, 0usize.wrapping_sub(m) + t]);
    }
    bad.retain(|&r| r >= m);
    bad.sort();
    bad.dedup();
    for &r in &bad {
        let mut qp = generate_index_query_params(&cp, bp).map_err(|e| e.to_string())?;
        if no_panic(|| qp.generate_query(r).is_ok()).map_err(|e| format!("{}: row {}: panic: {}", sp.name(), r, e))? {
            return Err(format!("{}: a query for row {} of {} is produced", sp.name(), r, m));
        }
        // again, and for another row outside
        if no_panic(|| qp.generate_query(r).is_ok() || qp.generate_query(m).is_ok())
            .map_err(|e| format!("{}: row {} again: panic: {}", sp.name(), r, e))?
        {
            return Err(format!("{}: a query for row {} is produced at the second attempt", sp.name(), r));
        }
        c.steps(3);
        c.state(&(sp.name(), r));
        c.trace();
    }
    for i in 0..m.min(8) {
        s.exchange(c, sp.e, sp.p, i)?;
    }
    c.sample(format!("{}: {} rows outside", sp.name(), bad.len()));
    Ok(())
}

/// Every pair of shards: parameters combine with a matrix only if the LWE
/// dimensions agree.
fn dims(c: &mut Case, kv: bool, max_dim: usize) -> R {
    let mk = |n: usize, dim: usize| Spec { kv, n, dim, e: 18, p: 9 }.build();
    let mut all = vec![];
    for dim in 1..=max_dim {
        for n in [1usize, 2, 3, 8] {
            all.push((dim, n, mk(n, dim)?));
        }
    }
    for (d1, n1, a) in &all {
        for (d2, n2, b) in &all {
            let what = format!("matrix of dim {} n={} with parameters of dim {} n={}", d1, n1, d2, n2);
            let ok = match (a, b) {
                (Srv::Index(a, _), Srv::Index(b, _)) => {
                    let cp = CommonParams::from(a.get_base_params());
                    no_panic(|| generate_index_query_params(&cp, b.get_base_params()).is_ok())
                }
                (Srv::Kv(a, ..), Srv::Kv(b, ..)) => {
                    let cp = CommonParams::from(a.get_base_params());
                    no_panic(|| generate_kv_query_params(&cp, b.get_base_params()).is_ok())
                }
                _ => unreachable!(),
            }
            .map_err(|e| format!("{}: panic: {}", what, e))?;
            if ok && d1 != d2 {
                return Err(format!("{}: accepted", what));
            }
            if !ok && d1 == d2 && n1 == n2 {
                return Err(format!("{}: refused", what));
            }
            c.steps(1);
            c.state(&what);
            c.outcome(&ok);
            c.trace();
        }
    }
    // a matrix with columns of unequal dimension
    if let Srv::Index(s, _) = &mk(3, 4)? {
        for bad in 0..3 {
            for l in [0usize, 1, 3, 5, 8] {
                let mut cols: Vec<Vec<u32>> = CommonParams::from(s.get_base_params()).as_matrix().to_vec();
                cols[bad].resize(l, 1);
                let cp = cp_from(&cols);
                if no_panic(|| generate_index_query_params(&cp, s.get_base_params()).is_ok())
                    .map_err(|e| format!("column {} of dim {}: panic: {}", bad, l, e))?
                {
                    return Err(format!("a matrix whose column {} has dimension {} instead of 4 is accepted", bad, l));
                }
                c.steps(1);
            }
        }
    }
    Ok(())
}

/// Keyword answers of every wrong length.
fn answers(c: &mut Case, sp: &Spec) -> R {
    let s = sp.build()?;
    let (sh, keys, el) = match &s {
        Srv::Kv(s, k, el) => (s, k, el),
        _ => return Ok(()),
    };
    let bp = sh.get_base_params();
    let cp = CommonParams::from(bp);
    let w = width(sp.e, sp.p);
    let mut lens: Vec<usize> = (0..=3 * w + 40).collect();
    lens.extend([100, 255, 256, 257, w + 256, w + 65536, 10 * w, w * w, 1 << 16, sh.get_base_params().get_total_records()]);
    lens.retain(|&l| l != w);
    let key = &keys[keys.len() - 1];
    let want = &el[keys.len() - 1];
    let mut qp = generate_kv_query_params(&cp, bp).map_err(|e| e.to_string())?;
    for used in [false, true] {
        let mut good = None;
        if used {
            let q = qp.generate_query(key).map_err(|e| e.to_string())?;
            good = Some(resp_of(&sh.answer(&q)?)?);
        }
        for &l in &lens {
            for kind in 0..3 {
                let mut v = fill(kind, l);
                if let (Some(g), 1) = (&good, kind) {
                    // the right answer, cut or extended
                    let g = g.as_slice();
                    for i in 0..l.min(g.len()) {
                        v[i] = g[i];
                    }
                }
                let r = resp_from(&v);
                let what = format!("{}: answer of {} words (width {}, used {})", sp.name(), l, w, used);
                let (a, b, d) = no_panic(|| {
                    (
                        qp.parse_resp_as_row(&r, key).is_ok(),
                        qp.parse_resp_as_bytes(&r, key).is_ok(),
                        qp.parse_resp_as_base64(&r, key).is_ok(),
                    )
                })
                .map_err(|e| format!("{}: panic: {}", what, e))?;
                if a || b || d {
                    return Err(format!("{}: decoded (row {}, bytes {}, base64 {})", what, a, b, d));
                }
                c.steps(3);
                c.state(&(&what, kind));
                c.trace();
                if let Some(g) = &good {
                    if !noise_ok(3 * sh.get_base_params().get_total_records(), sp.p) {
                        continue;
                    }
                    if qp.parse_resp_as_bytes(g, key).map_err(|e| e.to_string())? != *want {
                        return Err(format!("{}: the right answer decodes wrongly afterwards", what));
                    }
                }
            }
        }
    }
    c.sample(format!("{}: {} wrong answer lengths", sp.name(), lens.len()));
    Ok(())
}

/// Messages cut short or with a false length on the wire.
fn wire(c: &mut Case, sp: &Spec) -> R {
    let s = sp.build()?;
    let h = s.height();
    let q = fill(1, h);
    let b = bincode::serialize(&query_from(&q)).map_err(|e| e.to_string())?;
    for k in 0..b.len() {
        let r = no_panic(|| bincode::deserialize::<Query>(&b[..k]).is_ok())
            .map_err(|e| format!("query cut to {} bytes: panic: {}", k, e))?;
        if r {
            return Err(format!("a query cut to {} of {} bytes is read", k, b.len()));
        }
        c.steps(1);
        c.state(&(sp.name(), "cut", k));
    }
    for n in [0u64, 1, h as u64 - 1, h as u64 + 1, 1 << 20, 1 << 32, (1 << 32) + h as u64, u64::MAX] {
        let mut x = b.clone();
        x[..8].copy_from_slice(&n.to_le_bytes());
        if let Ok(q) = no_panic(|| bincode::deserialize::<Query>(&x)).map_err(|e| format!("length {}: panic: {}", n, e))? {
            if q.as_slice().len() != h {
                if s.respond(&q).map_err(|e| format!("length {}: panic: {}", n, e))?.is_ok() {
                    return Err(format!("a query announcing {} words is answered", n));
                }
            }
        }
        c.steps(1);
    }
    c.trace();
    Ok(())
}

/// Heights and widths beyond 2^8 and 2^16: lengths that agree in the low bits.
fn tall(c: &mut Case, sp: &Spec) -> R {
    let s = sp.build()?;
    let h = s.height();
    let mut lens = vec![0usize, 1, h - 1, h + 1, 2 * h, h / 2];
    for k in [8u32, 16, 17] {
        lens.extend([h + (1 << k), h.saturating_sub(1 << k), h % (1 << k), 1 << k]);
    }
    lens.retain(|&l| l != h);
    lens.sort();
    lens.dedup();
    let q0 = fill(1, h);
    let good = s.respond(&query_from(&q0))?.map_err(|e| format!("valid query refused: {}", e))?;
    for &l in &lens {
        for kind in [1usize, 3] {
            if s.respond(&query_from(&fill(kind, l))).map_err(|e| format!("{}: query of {} words: panic: {}", sp.name(), l, e))?.is_ok() {
                return Err(format!("{}: a query of {} words (height {}) is answered", sp.name(), l, h));
            }
            if s.respond(&query_from(&q0))?.ok() != Some(good.clone()) {
                return Err(format!("{}: the answer to a valid query changes after one of {} words", sp.name(), l));
            }
            c.steps(2);
            c.state(&(sp.name(), l, kind));
            c.trace();
        }
    }
    match &s {
        Srv::Index(sh, _) => {
            let bp = sh.get_base_params();
            let cp = CommonParams::from(bp);
            for r in [h, h + 1, h + 256, h + 65_536, h + (1 << 32), (1 << 32) + h - 1, usize::MAX, usize::MAX - h + 1, 1 << 32, 1 << 63] {
                let mut qp = generate_index_query_params(&cp, bp).map_err(|e| e.to_string())?;
                if no_panic(|| qp.generate_query(r).is_ok()).map_err(|e| format!("{}: row {}: panic: {}", sp.name(), r, e))? {
                    return Err(format!("{}: a query for row {} is produced", sp.name(), r));
                }
                c.steps(1);
                c.state(&(sp.name(), "row", r));
            }
        }
        Srv::Kv(sh, keys, _) => {
            let bp = sh.get_base_params();
            let cp = CommonParams::from(bp);
            let w = width(sp.e, sp.p);
            let mut qp = generate_kv_query_params(&cp, bp).map_err(|e| e.to_string())?;
            qp.generate_query(&keys[0]).map_err(|e| e.to_string())?;
            for l in [0, 1, w - 1, w + 1, w + 256, w + 65_536, w % 65_536, w % 256] {
                if l == w {
                    continue;
                }
                let r = resp_from(&fill(1, l));
                if no_panic(|| qp.parse_resp_as_row(&r, &keys[0]).is_ok() || qp.parse_resp_as_bytes(&r, &keys[0]).is_ok())
                    .map_err(|e| format!("{}: answer of {} words: panic: {}", sp.name(), l, e))?
                {
                    return Err(format!("{}: an answer of {} words (width {}) is decoded", sp.name(), l, w));
                }
                c.steps(2);
                c.state(&(sp.name(), "answer", l));
            }
        }
    }
    Ok(())
}

/// However many bad messages came before, in a row or in between: refused
/// each, and a valid one is served.
fn patience(c: &mut Case, sp: &Spec) -> R {
    let s = sp.build()?;
    let h = s.height();
    let q0: Vec<u32> = (0..h).map(|i| sm(i as u64) as u32).collect();
    let good = s.respond(&query_from(&q0))?.map_err(|e| format!("{}: valid query refused: {}", sp.name(), e))?;
    let n = if c.thorough() { 1 << 21 } else { (1 << 16) + 5000 };
    let lens = [h + 1, h - 1, 0, 2 * h, h + 256];
    // refused, refused, ...: runs of growing length, a valid query after each
    let mut done = 0usize;
    let mut run = 1;
    while done < n {
        for i in 0..run {
            let l = lens[(i + run) % if run % 2 == 0 { 5 } else { 1 }];
            if s.respond(&query_from(&vec![7; l]))?.is_ok() {
                return Err(format!("{}: refusal number {}: a query of {} words is answered", sp.name(), done + i, l));
            }
        }
        done += run;
        if s.respond(&query_from(&q0))?.ok().as_ref() != Some(&good) {
            return Err(format!("{}: after {} refusals, {} in a row, a valid query is not answered as before", sp.name(), done, run));
        }
        c.steps(run as u64 + 1);
        c.state(&(sp.name(), done));
        run = run * 3 / 2 + 1;
    }
    // the same at the client
    match &s {
        Srv::Index(sh, _) => {
            let bp = sh.get_base_params();
            let cp = CommonParams::from(bp);
            let mut qp = generate_index_query_params(&cp, bp).map_err(|e| e.to_string())?;
            for i in 0..n {
                let r = h + i * (1 + i % 7 * 65_536);
                if no_panic(|| qp.generate_query(r).is_ok()).map_err(|e| format!("row {}: panic: {}", r, e))? {
                    return Err(format!("{}: a query for row {} is produced", sp.name(), r));
                }
            }
            qp.generate_query(h - 1).map_err(|e| format!("{}: after {} rows outside, a valid one is refused: {}", sp.name(), n, e))?;
            c.steps(n as u64 + 1);
        }
        Srv::Kv(sh, keys, _) => {
            let bp = sh.get_base_params();
            let cp = CommonParams::from(bp);
            let mut qp = generate_kv_query_params(&cp, bp).map_err(|e| e.to_string())?;
            let q = qp.generate_query(&keys[0]).map_err(|e| e.to_string())?;
            let ok = resp_of(&sh.respond(&q).map_err(|e| e.to_string())?)?;
            let want = qp.parse_resp_as_bytes(&ok, &keys[0]).map_err(|e| e.to_string())?;
            let w = width(sp.e, sp.p);
            for i in 0..n {
                let r = resp_from(&vec![3; if i % 2 == 0 { w + 1 } else { w - 1 }]);
                if no_panic(|| qp.parse_resp_as_row(&r, &keys[0]).is_ok()).map_err(|e| format!("answer: panic: {}", e))? {
                    return Err(format!("{}: after {} refusals a wrong answer is decoded", sp.name(), i));
                }
            }
            if qp.parse_resp_as_bytes(&ok, &keys[0]).ok() != Some(want) {
                return Err(format!("{}: after {} wrong answers the right one is not decoded", sp.name(), n));
            }
            c.steps(n as u64 + 1);
        }
    }
    c.trace();
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("every query length from 0 to 2h+20, all powers of two and their neighbours and multiples of h, 4 contents, a valid query judged after each; heights 1 to 150");
    pl.bound(format!("all histories of {} requests (valid, empty, one word short or long, the other server's length) to two servers", if th { 6 } else { 5 }));
    pl.bound("every row from m to 2m+20, powers of two and their neighbours, values that wrap to valid rows");
    pl.bound("all pairs of matrix and parameters of dimension 1 to 6 (12) and 4 sizes; answers of every wrong length to 3w+40 before and after use");
    pl.assume("decoding an index answer of the wrong length has no error channel in the interface and is not judged");
    let mut specs = vec![];
    for (n, dim, e, p) in [
        (1usize, 1usize, 8usize, 8usize),
        (2, 1, 20, 9),
        (3, 2, 33, 11),
        (8, 4, 64, 8),
        (17, 3, 100, 9),
        (64, 1, 10, 10),
        (100, 2, 24, 9),
    ] {
        for kv in [false, true] {
            specs.push(Spec { kv, n, dim, e, p });
        }
    }
    if th {
        for n in 1..=24 {
            for kv in [false, true] {
                specs.push(Spec { kv, n, dim: 1 + n % 5, e: 5 * n, p: 8 + n % 4 });
            }
        }
        specs.push(Spec { kv: false, n: 2000, dim: 1, e: 9, p: 9 });
        specs.push(Spec { kv: true, n: 600, dim: 1, e: 9, p: 9 });
    }
    for sp in specs.iter().cloned() {
        let s = Arc::new(sp);
        let (a, b, d, e) = (s.clone(), s.clone(), s.clone(), s.clone());
        pl.case(format!("lengths {}", s.name()), move |c| lengths(c, &a));
        pl.case(format!("wire {}", s.name()), move |c| wire(c, &e));
        if s.kv {
            pl.case(format!("answers {}", s.name()), move |c| answers(c, &b));
        } else {
            pl.case(format!("rows {}", s.name()), move |c| rows(c, &d));
        }
    }
    pl.bound("scale: heights of 300 and 70000 and widths of 300 and 70000 with lengths and rows that agree in their low 8, 16 or 32 bits");
    for kv in [false, true] {
        for (n, e, p) in [(300usize, 9usize, 9usize), (70_000, 9, 9), (2, 300 * 9, 9), (2, 70_000 * 9, 9)] {
            let sp = Spec { kv, n, dim: 1, e, p };
            pl.case(format!("scale {}", sp.name()), move |c| tall(c, &sp));
        }
    }
    for kv in [false, true] {
        pl.case(format!("dims kv={}", kv), move |c| dims(c, kv, if th { 12 } else { 6 }));
    }
    pl.bound(format!("{} bad messages to one server and one client, in runs of growing length, a valid one after each run", if th { 1 << 21 } else { (1 << 16) + 5000 }));
    for i in [2usize, 3] {
        let sp = specs[i].clone();
        pl.case(format!("patience {}", sp.name()), move |c| patience(c, &sp));
    }
    let depth = if th { 6 } else { 5 };
    for (i, j) in [(2usize, 4usize), (2, 3), (3, 5)] {
        let (a, b) = (specs[i].clone(), specs[j].clone());
        pl.case(format!("histories {} / {}", a.name(), b.name()), move |c| histories(c, &a, &b, depth));
    }
}
