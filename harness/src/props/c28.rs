//! C28: public parameters that contradict themselves are refused.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{FilterParams, IndexParams, KVParams};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

/// More draws than any preparation of these shapes can need.
const DRAWS: u64 = 1 << 16;

trait Par: BaseParams + Serialize + DeserializeOwned + Clone {
    const KV: bool;
    fn make(n: usize, dim: usize, e: usize, p: usize) -> Result<Self, String>;
    fn filter(&self) -> Option<FilterParams>;
    fn with(&self, c: &mut Case, what: &str, cp: &CommonParams, own: bool, must: Option<String>) -> R;
}
fn prepared<T>(what: &str, must: &Option<String>, own: bool, r: Result<Result<T, String>, String>) -> Result<Option<T>, String> {
    match r {
        Err(e) => Err(format!("{}: preparing a query panics: {}", what, e)),
        Ok(Err(e)) => match must {
            None if own => Err(format!("{}: parameters without a contradiction are refused: {}", what, e)),
            _ => Ok(None),
        },
        Ok(Ok(q)) => match must {
            Some(m) => Err(format!("{}: accepted although {}", what, m)),
            None => Ok(Some(q)),
        },
    }
}
fn join(d: &[u32], e: usize, p: usize) -> Vec<u8> {
    let mut v = vec![0u8; nbytes(e)];
    for i in 0..e {
        if d[i / p] >> (i % p) & 1 == 1 {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}
/// Digits that use every bit of an element.
fn pattern(k: u64, e: usize, p: usize) -> Vec<u32> {
    let n = width(e, p);
    (0..n)
        .map(|i| {
            let bits = if i + 1 == n && e % p != 0 { e % p } else { p };
            (sm(k.wrapping_mul(64).wrapping_add(i as u64)) as u32) & (((1u64 << bits) - 1) as u32)
        })
        .collect()
}
impl Par for IndexParams {
    const KV: bool = false;
    fn make(n: usize, dim: usize, e: usize, p: usize) -> Result<Self, String> {
        let s = Shard::from_base64_strings(&b64s(&elements(0, n, e)), dim, n, e, p).map_err(|e| format!("build: {}", e))?;
        Ok(s.get_base_params().clone())
    }
    fn filter(&self) -> Option<FilterParams> {
        None
    }
    fn with(&self, c: &mut Case, what: &str, cp: &CommonParams, own: bool, must: Option<String>) -> R {
        let q = prepared(what, &must, own, no_panic(|| generate_index_query_params(cp, self).map_err(|e| e.to_string())))?;
        let qp = match q {
            Some(q) => q,
            None => return Ok(()),
        };
        let (e, p) = (self.get_elem_size(), self.get_plaintext_bits());
        let rows = cp.as_matrix().len();
        for row in [0, rows / 2, rows.wrapping_sub(1), rows, usize::MAX] {
            let mut qp = qp.clone();
            match no_panic(|| qp.generate_query(row).map_err(|e| e.to_string())) {
                Err(e) => return Err(format!("{}: querying row {} panics: {}", what, row, e)),
                Ok(Err(e)) if row < rows => return Err(format!("{}: row {} of {} is refused: {}", what, row, rows, e)),
                Ok(Err(_)) => {}
                Ok(Ok(q)) => {
                    let good = row < rows && q.as_slice().len() == rows && q.as_slice().iter().enumerate().all(|(i, &w)| w == if i == row { delta(p) } else { 0 });
                    if !good {
                        return Err(format!("{}: wrong query for row {} of {}: {:?}", what, row, rows, trunc(q.as_slice())));
                    }
                }
            }
            c.steps(1);
        }
        let v = pattern(h64(&c.name), e, p);
        let r = resp_from(&v.iter().map(|d| d.wrapping_mul(delta(p))).collect::<Vec<u32>>());
        let got = no_panic(|| (qp.parse_resp_as_row(&r), qp.parse_resp_as_bytes(&r), qp.parse_resp_as_base64(&r)))
            .map_err(|e| format!("{}: decoding an answer of {} words panics: {}", what, v.len(), e))?;
        let b = join(&v, e, p);
        if got != (v.clone(), b.clone(), b64(&b)) {
            return Err(format!("{}: an answer of the digits {:?} is decoded as {:?}", what, trunc(&v), trunc(&got.0)));
        }
        c.steps(3);
        Ok(())
    }
}
impl Par for KVParams {
    const KV: bool = true;
    fn make(n: usize, dim: usize, e: usize, p: usize) -> Result<Self, String> {
        let (kvs, _) = kvs_of(&keyset(0, n), 0, e, p);
        let s = KVShard::new(&kvs, dim, n, e, p).map_err(|e| format!("build: {}", e))?;
        Ok(s.get_base_params().clone())
    }
    fn filter(&self) -> Option<FilterParams> {
        Some(self.get_filter_params())
    }
    fn with(&self, c: &mut Case, what: &str, cp: &CommonParams, own: bool, must: Option<String>) -> R {
        let q = prepared(what, &must, own, no_panic(|| generate_kv_query_params(cp, self).map_err(|e| e.to_string())))?;
        let qp = match q {
            Some(q) => q,
            None => return Ok(()),
        };
        let (e, p) = (self.get_elem_size(), self.get_plaintext_bits());
        let rows = cp.as_matrix().len();
        for key in [[0; 4], [u64::MAX; 4], [1, 2, 3, 4], [sm(1), sm(2), sm(3), sm(4)]] {
            let mut q1 = qp.clone();
            match no_panic(|| q1.generate_query(&key).map_err(|e| e.to_string())) {
                Err(e) => return Err(format!("{}: querying key {:x?} panics: {}", what, key, e)),
                Ok(Err(e)) if own => return Err(format!("{}: key {:x?} is refused: {}", what, key, e)),
                Ok(Err(_)) => {}
                Ok(Ok(q)) => {
                    let set = q.as_slice().iter().filter(|&&w| w == delta(p)).count();
                    let zero = q.as_slice().iter().filter(|&&w| w == 0).count();
                    if q.as_slice().len() != rows || set != 3 || zero + 3 != rows {
                        return Err(format!("{}: wrong query for key {:x?}, {} rows: {:?}", what, key, rows, trunc(q.as_slice())));
                    }
                }
            }
            let v = pattern(h64(&c.name), e, p);
            let r = resp_from(&v.iter().map(|d| d.wrapping_mul(delta(p))).collect::<Vec<u32>>());
            let got = no_panic(|| qp.parse_resp_as_row(&r, &key).map_err(|e| e.to_string()))
                .map_err(|e| format!("{}: decoding an answer of {} words panics: {}", what, v.len(), e))?
                .map_err(|e| format!("{}: decoding an answer of {} words fails: {}", what, v.len(), e))?;
            let fp = self.get_filter_params();
            let want: Vec<u32> = v.iter().enumerate().map(|(i, &d)| fp.unmask_value(d, &key, i as u64) & ((1u64 << p) - 1) as u32).collect();
            let bytes = no_panic(|| qp.parse_resp_as_bytes(&r, &key).map_err(|e| e.to_string()))
                .map_err(|e| format!("{}: decoding to bytes panics: {}", what, e))?
                .map_err(|e| format!("{}: decoding to bytes fails: {}", what, e))?;
            if got != want || bytes != join(&want, e, p) {
                return Err(format!("{}: an answer of the digits {:?} for key {:x?} is decoded as {:?} instead of {:?}", what, trunc(&v), key, trunc(&got), trunc(&want)));
            }
            c.steps(3);
        }
        Ok(())
    }
}

/// What is wrong with the parameters in themselves, if anything.
fn contradiction<P: Par>(x: &P) -> Option<String> {
    let (e, p, dim, rhs) = (x.get_elem_size(), x.get_plaintext_bits(), x.get_dim(), x.get_rhs());
    if !(1..=31).contains(&p) {
        return Some(format!("the plaintext bits are {}", p));
    }
    if e == 0 {
        return Some("elements have no bits".into());
    }
    let w = e / p + (e % p != 0) as usize;
    if rhs.len() != w {
        return Some(format!("the hint has {} columns, elements {} digits", rhs.len(), w));
    }
    if let Some(k) = rhs.iter().find(|k| k.len() != dim) {
        return Some(format!("a column of the hint has {} words, the LWE dimension is {}", k.len(), dim));
    }
    if let Some(f) = x.filter() {
        let (len, mask, count, m) = (f.segment_length, f.segment_length_mask, f.segment_count_length, x.get_total_records());
        if !len.is_power_of_two() || mask != len - 1 || count == 0 || count % len != 0 || count as u64 + 2 * len as u64 != m as u64 || m > u32::MAX as usize {
            return Some(format!("segments of {} (mask {:#x}), {} first positions are no filter of {} rows", len, mask, count, m));
        }
    }
    None
}

/// Uses loaded parameters as a client would.
fn consume<P: Par>(c: &mut Case, what: &str, x: &P, orig: &CommonParams) -> R {
    let must = contradiction(x);
    let zero = word_of(0);
    let env = Env::install(&[], &[]);
    env.0.borrow_mut().fail_at = Some(DRAWS);
    env.set_words(&[], Some(zero));
    let fits = orig.as_matrix().len() == x.get_total_records() && orig.as_matrix().iter().all(|r| r.len() == x.get_dim());
    let small = x.get_total_records().checked_mul(x.get_dim().max(1)).map_or(false, |n| n <= 1 << 12);
    x.with(c, what, orig, fits && must.is_none(), must.clone())?;
    if small && !fits {
        let cp = no_panic(|| CommonParams::from(x)).map_err(|e| format!("{}: deriving the matrix panics: {}", what, e))?;
        x.with(c, what, &cp, must.is_none(), must.clone())?;
    }
    c.state(&(what, must.is_some()));
    c.outcome(&must);
    c.trace();
    Ok(())
}

// ------------------------------------------------------------------- edits

#[derive(Clone, Debug)]
enum Step {
    K(String),
    I(usize),
}
type Path = Vec<Step>;
fn paths(v: &Value, at: &mut Path, out: &mut Vec<Path>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Step::I(i));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(Step::K(k.clone()));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn node<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::K(k) => v.get_mut(k.as_str())?,
            Step::I(i) => v.get_mut(*i)?,
        };
    }
    Some(v)
}
fn show(p: &Path) -> String {
    p.iter().map(|s| match s { Step::K(k) => format!(".{}", k), Step::I(i) => format!("[{}]", i) }).collect()
}
fn numbers(x: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=34).collect();
    for k in [5u32, 6, 7, 8, 9, 10, 16, 24, 31, 32, 33, 48, 62, 63] {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([u64::MAX, u64::MAX - 1, x ^ 1, x + 1, x + 2, x * 2, x * 2 + 1, x / 2, x * 3, x + 256, x + (1 << 16)]);
    v.extend([x.wrapping_add(1 << 32), (1u64 << 32).wrapping_sub(x), 0u64.wrapping_sub(x), x.wrapping_sub(1), x.wrapping_sub(2), x.wrapping_sub(8), x + 8]);
    v.sort();
    v.dedup();
    v.retain(|&y| y != x);
    v
}
/// All the replacements of one node.
fn edits(v: &Value) -> Vec<Option<Value>> {
    let mut out = vec![];
    match v {
        Value::Number(n) => {
            if let Some(x) = n.as_u64() {
                out.extend(numbers(x).into_iter().map(|y| Some(json!(y))));
            }
            out.extend([Some(json!(-1)), Some(json!(1.5)), Some(json!(1e300)), Some(Value::Null), Some(json!("1")), Some(json!([])), Some(json!({})), Some(json!(true))]);
        }
        Value::Array(a) => {
            let n = a.len();
            let mut with = |f: &dyn Fn(&mut Vec<Value>)| {
                let mut b = a.clone();
                f(&mut b);
                if &b != a {
                    out.push(Some(Value::Array(b)));
                }
            };
            with(&|b| b.clear());
            for k in [1, 2, 3, n] {
                with(&|b| for _ in 0..k { let x = b.last().cloned().unwrap_or(json!(0)); b.push(x) });
                with(&|b| b.truncate(n.saturating_sub(k)));
            }
            with(&|b| if n > 0 { b.remove(0); });
            with(&|b| if n > 1 { b.remove(n / 2); });
            with(&|b| if n > 1 { b.swap(0, n - 1); });
            with(&|b| b.push(json!(0)));
            with(&|b| b.push(json!([])));
            with(&|b| if n > 0 { b[n - 1] = json!([]); });
            with(&|b| if n > 0 { b[0] = json!([0]); });
            with(&|b| if n > 0 { b[0] = Value::Null; });
            out.extend([Some(Value::Null), Some(json!({})), Some(json!(0)), Some(json!("x"))]);
        }
        Value::Object(o) => {
            for k in o.keys() {
                let mut b = o.clone();
                b.remove(k);
                out.push(Some(Value::Object(b.clone())));
                b.insert(format!("{}x", k), o[k].clone());
                out.push(Some(Value::Object(b)));
            }
            let mut b = o.clone();
            b.insert("more".into(), json!(1));
            out.push(Some(Value::Object(b)));
            out.extend([Some(Value::Null), Some(json!([])), Some(json!(3))]);
        }
        _ => out.extend([Some(json!(0)), Some(Value::Null)]),
    }
    out
}
fn base<P: Par>(n: usize, dim: usize, e: usize, p: usize) -> Result<(P, Value, CommonParams), String> {
    let x = P::make(n, dim, e, p)?;
    let v = serde_json::to_value(&x).map_err(|e| format!("harness: {}", e))?;
    let cp = CommonParams::from(&x);
    Ok((x, v, cp))
}
fn load<P: Par>(v: &Value, what: &str) -> Result<Option<P>, String> {
    no_panic(|| serde_json::from_value::<P>(v.clone()).ok()).map_err(|e| format!("{}: reading panics: {}", what, e))
}

fn singles<P: Par>(c: &mut Case, n: usize, dim: usize, e: usize, p: usize) -> R {
    let (x, v, cp) = base::<P>(n, dim, e, p)?;
    consume(c, "unaltered", &x, &cp)?;
    consume(c, "restored", &load::<P>(&v, "restored")?.ok_or("unaltered parameters are not read")?, &cp)?;
    let fs = fields::<P>(&v);
    let mut ps = vec![];
    paths(&v, &mut vec![], &mut ps);
    let (mut all, mut read) = (0, 0);
    for path in &ps {
        let old = node(&mut v.clone(), path).cloned().unwrap();
        for (k, r) in edits(&old).into_iter().enumerate() {
            let r = r.unwrap();
            let what = format!("{} := {} ({})", show(path), brief(&r), k);
            let mut w = v.clone();
            *node(&mut w, path).unwrap() = r;
            all += 1;
            c.steps(1);
            if let Some(y) = load::<P>(&w, &what)? {
                read += 1;
                declared(&what, &fs, &w, &y)?;
                consume(c, &what, &y, &cp)?;
            }
        }
    }
    c.sample(format!("{} alterations of {} places, {} of them readable", all, ps.len(), read));
    Ok(())
}
fn brief(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 60 { format!("{}...", &s[..60]) } else { s }
}

/// Every two fields altered together.
fn pairs<P: Par>(c: &mut Case, n: usize, dim: usize, e: usize, p: usize, part: usize, parts: usize) -> R {
    let (_, v, cp) = base::<P>(n, dim, e, p)?;
    let fs = fields::<P>(&v);
    let mut ps = vec![];
    paths(&v, &mut vec![], &mut ps);
    // Scalar fields, arrays, and one word of the hint; not the 32 seed bytes.
    let mut seen_num = std::collections::HashSet::new();
    ps.retain(|q| match node(&mut v.clone(), q).unwrap() {
        Value::Object(_) => false,
        Value::Array(_) => true,
        _ => match q.last() {
            Some(Step::I(_)) => seen_num.insert(show(&q[..1].to_vec())),
            _ => true,
        },
    });
    let eds: Vec<Vec<Value>> = ps
        .iter()
        .map(|q| {
            let mut e: Vec<Value> = edits(&node(&mut v.clone(), q).unwrap().clone()).into_iter().flatten().collect();
            // What cannot be read alone cannot be read together either.
            e.retain(|r| {
                let mut w = v.clone();
                *node(&mut w, q).unwrap() = r.clone();
                serde_json::from_value::<P>(w).is_ok()
            });
            e
        })
        .collect();
    let mut n = 0;
    for i in 0..ps.len() {
        for j in 0..i {
            n += 1;
            if n % parts != part {
                continue;
            }
            for a in &eds[i] {
                let mut w = v.clone();
                *node(&mut w, &ps[i]).unwrap() = a.clone();
                for b in &eds[j] {
                    let mut w = w.clone();
                    match node(&mut w, &ps[j]) {
                        Some(x) => *x = b.clone(),
                        None => continue,
                    }
                    let what = format!("{} := {}, {} := {}", show(&ps[i]), brief(a), show(&ps[j]), brief(b));
                    c.steps(1);
                    if let Some(y) = load::<P>(&w, &what)? {
                        declared(&what, &fs, &w, &y)?;
                        consume(c, &what, &y, &cp)?;
                    }
                }
            }
        }
    }
    Ok(())
}

/// The field that a getter reads.
fn field<P: Par>(v: &Value, get: &dyn Fn(&P) -> u64) -> Option<Path> {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    let was = get(&serde_json::from_value::<P>(v.clone()).ok()?);
    ps.into_iter().find(|q| {
        let mut w = v.clone();
        match node(&mut w, q) {
            Some(x) if x.as_u64() == Some(was) => *x = json!(was + 1),
            _ => return false,
        }
        serde_json::from_value::<P>(w).map_or(false, |y| get(&y) == was + 1)
    })
}
fn hint<P: Par>(v: &Value, x: &P) -> Option<Path> {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    let rhs = serde_json::to_value(x.get_rhs()).ok()?;
    ps.into_iter().find(|q| node(&mut v.clone(), q).map_or(false, |y| *y == rhs))
}
/// Where the file says what the getters should tell.
fn fields<P: Par>(v: &Value) -> Vec<(Path, &'static str, fn(&P) -> u64)> {
    let get: [(&'static str, fn(&P) -> u64); 7] = [
        ("element size", |y| y.get_elem_size() as u64),
        ("plaintext bits", |y| y.get_plaintext_bits() as u64),
        ("LWE dimension", |y| y.get_dim() as u64),
        ("rows", |y| y.get_total_records() as u64),
        ("segment length", |y| y.filter().map_or(0, |f| f.segment_length as u64)),
        ("segment mask", |y| y.filter().map_or(0, |f| f.segment_length_mask as u64)),
        ("first positions", |y| y.filter().map_or(0, |f| f.segment_count_length as u64)),
    ];
    // The names under which they are stored at present; by value otherwise.
    let names = ["elem_size", "plaintext_bits", "dim", "m", "segment_length", "segment_length_mask", "segment_count_length"];
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    let named = |k: &str| {
        let mut it = ps.iter().filter(|p| matches!(p.last(), Some(Step::K(n)) if n == k) && at(v, p).map_or(false, |x| x.is_u64()));
        match (it.next(), it.next()) {
            (Some(p), None) => Some(p.clone()),
            _ => None,
        }
    };
    get.into_iter()
        .zip(names)
        .filter_map(|((n, g), k)| named(k).or_else(|| field::<P>(v, &g)).map(|p| (p, n, g)))
        .collect()
}
fn declared<P: Par>(what: &str, fs: &[(Path, &'static str, fn(&P) -> u64)], w: &Value, y: &P) -> R {
    for (p, name, get) in fs {
        if let Some(x) = at(w, p).and_then(|x| x.as_u64()) {
            let got = no_panic(|| get(y)).map_err(|e| format!("{}: asking for the {} panics: {}", what, name, e))?;
            if got != x {
                return Err(format!("{}: the {} becomes {}, declared are {}", what, name, got, x));
            }
        }
    }
    Ok(())
}
fn at<'a>(v: &'a Value, p: &[Step]) -> Option<&'a Value> {
    p.iter().try_fold(v, |v, s| match s {
        Step::K(k) => v.get(k.as_str()),
        Step::I(i) => v.get(*i),
    })
}
/// All small shapes of hint, sizes and encoding.
fn shapes<P: Par>(c: &mut Case, e: usize, top: usize) -> R {
    let (x, v, cp) = base::<P>(3, 2, 21, 8)?;
    let all = fields::<P>(&v);
    let fs: Vec<Path> = all.iter().take(4).map(|f| f.0.clone()).collect();
    let h = match hint(&v, &x) {
        Some(h) if all.len() == if P::KV { 7 } else { 4 } => h,
        _ => {
            c.sample("fields not found by their values".into());
            return Ok(());
        }
    };
    let m0 = x.get_total_records();
    for p in 0..=34usize {
        for cols in 0..=top {
            for len in 0..=3usize {
                for dim in 0..=3usize {
                    for m in [m0, 0, 1, m0 + 1] {
                        // one column may differ from the others
                        for odd in 0..=3usize {
                            if odd > 0 && (cols < 2 || m != m0 || len != dim) {
                                continue;
                            }
                            let mut w = v.clone();
                            for (f, y) in fs.iter().zip([e, p, dim, m]) {
                                *node(&mut w, f).unwrap() = json!(y);
                            }
                            let mut rhs = vec![vec![7u32; len]; cols];
                            match odd {
                                1 => rhs[0].push(1),
                                2 => rhs[cols - 1].push(1),
                                3 if len > 0 => {
                                    rhs[cols - 1].pop();
                                }
                                _ => {}
                            }
                            *node(&mut w, &h).unwrap() = json!(rhs);
                            let what = format!("e={} p={} dim={} m={} hint {}x{} odd {}", e, p, dim, m, cols, len, odd);
                            c.steps(1);
                            let y = load::<P>(&w, &what)?.ok_or(format!("{}: not read", what))?;
                            declared(&what, &all, &w, &y)?;
                            consume(c, &what, &y, &cp)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
/// All combinations of filter fields and rows.
fn filters(c: &mut Case, n: usize) -> R {
    let (x, v, cp) = base::<KVParams>(n, 1, 8, 8)?;
    let all = fields::<KVParams>(&v);
    let fs: Vec<Path> = if all.len() == 7 { [4, 5, 6, 3].iter().map(|&i| all[i].0.clone()).collect() } else { vec![] };
    if fs.len() != 4 {
        c.sample("fields not found by their values".into());
        return Ok(());
    }
    let f = x.get_filter_params();
    let vals = |y: u64| {
        let mut a = vec![0u64, 1, 2, 3, 4, 6, 7, 8, 15, 16, 24, 31, 32, 48, 64, y, y.wrapping_sub(1), y + 1, 2 * y, 1 << 31, (1 << 32) - 1, (1 << 32) - y, (1u64 << 31) - 1, (1 << 30)];
        a.retain(|&y| y <= u32::MAX as u64);
        a.sort();
        a.dedup();
        a
    };
    let m = x.get_total_records() as u64;
    for len in vals(f.segment_length as u64) {
        for mask in vals(f.segment_length_mask as u64) {
            for count in vals(f.segment_count_length as u64) {
                let mut rows = vec![m, m + 1, 0, 1, (count + 2 * len) & 0xffff_ffff, count + 2 * len, count + 2 * len + 1, count + len, (count + 2 * len).wrapping_sub(1)];
                rows.sort();
                rows.dedup();
                for r in rows {
                    let mut w = v.clone();
                    for (q, y) in fs.iter().zip([len, mask, count, r]) {
                        *node(&mut w, q).unwrap() = json!(y);
                    }
                    let what = format!("segments {} mask {:#x} first {} rows {}", len, mask, count, r);
                    c.steps(1);
                    let y = load::<KVParams>(&w, &what)?.ok_or(format!("{}: not read", what))?;
                    declared(&what, &all, &w, &y)?;
                    consume(c, &what, &y, &cp)?;
                }
            }
        }
    }
    Ok(())
}

/// Every byte of the stored form altered.
fn bytes<P: Par>(c: &mut Case, n: usize, dim: usize, e: usize, p: usize, text: bool, file: bool) -> R {
    let (x, _, cp) = base::<P>(n, dim, e, p)?;
    let b = if text { serde_json::to_vec(&x).map_err(|e| e.to_string())? } else { bincode::serialize(&x).map_err(|e| e.to_string())? };
    let d = scratch("c28")?;
    let f = format!("{}/p", d.path);
    let read = |b: &[u8], what: &str| -> Result<Option<P>, String> {
        if file {
            std::fs::write(&f, b).map_err(|e| format!("harness: {}", e))?;
            let r = no_panic(|| IndexParams::load(&f).ok()).map_err(|e| format!("{}: loading panics: {}", what, e))?;
            return Ok(r.map(|y| bincode::deserialize(&bincode::serialize(&y).unwrap()).unwrap()));
        }
        no_panic(|| if text { serde_json::from_slice::<P>(b).ok() } else { bincode::deserialize::<P>(b).ok() }).map_err(|e| format!("{}: reading panics: {}", what, e))
    };
    let mut seen = 0;
    for i in 0..b.len() {
        let mut alts: Vec<u8> = if text {
            b"0123456789-+.eE,:;[]{}\" nul\\tf\x00\x7f\xff\xc3".to_vec()
        } else {
            vec![0, 1, 2, 3, 5, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255]
        };
        alts.extend((0..8).map(|k| b[i] ^ (1 << k)));
        alts.extend([b[i].wrapping_add(1), b[i].wrapping_sub(1)]);
        alts.sort();
        alts.dedup();
        for a in alts.into_iter().filter(|&a| a != b[i]) {
            let mut w = b.clone();
            w[i] = a;
            let what = format!("byte {} := {:#04x}", i, a);
            c.steps(1);
            if let Some(y) = read(&w, &what)? {
                seen += 1;
                consume(c, &what, &y, &cp)?;
            }
        }
        for cut in 0..3 {
            let mut w = b.clone();
            match cut {
                0 => w.truncate(i),
                1 => {
                    w.remove(i);
                }
                _ => w.insert(i, b[i]),
            }
            let what = format!("byte {} {}", i, ["and all after it missing", "missing", "doubled"][cut]);
            c.steps(1);
            if let Some(y) = read(&w, &what)? {
                seen += 1;
                consume(c, &what, &y, &cp)?;
            }
        }
    }
    c.sample(format!("{} bytes, {} alterations readable", b.len(), seen));
    Ok(())
}

/// Matrices that do not belong to the parameters.
fn matrices<P: Par>(c: &mut Case, n: usize, dim: usize) -> R {
    let (x, _, cp) = base::<P>(n, dim, 20, 8)?;
    let rows = cp.as_matrix().to_vec();
    let env = Env::install(&[], &[]);
    env.0.borrow_mut().fail_at = Some(DRAWS);
    env.set_words(&[], Some(word_of(0)));
    let mut list: Vec<Vec<Vec<u32>>> = vec![vec![], vec![vec![]]];
    for i in 0..rows.len() {
        for len in (0..=dim + 3).chain([dim + (1 << 8), dim + (1 << 16)]) {
            let mut r = rows.clone();
            r[i] = vec![9; len];
            list.push(r);
        }
        list.push(rows[..i].to_vec());
        list.push(rows.iter().chain(&rows[..i]).cloned().collect());
    }
    for len in 0..=dim + 3 {
        list.push(vec![vec![9; len]; rows.len()]);
    }
    for r in list {
        let what = format!("matrix with rows of {:?} words, LWE dimension {}", trunc(&r.iter().map(|r| r.len()).collect::<Vec<_>>()), dim);
        let must = r.iter().any(|r| r.len() != dim).then(|| "a row has not the LWE dimension".to_string());
        env.0.borrow_mut().calls = 0;
        x.with(c, &what, &cp_from(&r), false, must)?;
        c.state(&what);
        c.steps(1);
        c.trace();
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("every place of the parameters (fields, arrays, elements, objects) x all replacements by 90 numbers, other types, shortened, lengthened and reordered arrays; every two places together");
    pl.bound("all shapes of hint (0 to 9 columns of 0 to 3 words, one of them odd) x LWE dimension 0 to 3 x 4 row counts x plaintext bits 0 to 34 x 16 element sizes; all combinations of filter fields from 24 values each");
    pl.bound("every byte of the binary and JSON form replaced (26 to 40 values), removed, doubled, cut");
    pl.assume("an LWE dimension and row count of which the matrix fits into memory are taken as declared");
    let sh: &[(usize, usize, usize, usize)] = if th {
        &[(1, 1, 8, 8), (3, 2, 21, 8), (5, 3, 33, 31), (4, 1, 7, 1), (2, 4, 100, 16), (40, 2, 13, 9)]
    } else {
        &[(1, 1, 8, 8), (3, 2, 21, 8), (5, 3, 33, 31), (4, 1, 7, 1)]
    };
    for &(n, dim, e, p) in sh {
        let t = format!("n={} dim={} e={} p={}", n, dim, e, p);
        // A debug build asserts that keyword databases have at least 8 bits.
        let kv = p >= 8;
        pl.case(format!("alter index {}", t), move |c| singles::<IndexParams>(c, n, dim, e, p));
        if kv {
            pl.case(format!("alter keyword {}", t), move |c| singles::<KVParams>(c, n, dim, e, p));
        }
        pl.case(format!("bytes index {}", t), move |c| bytes::<IndexParams>(c, n, dim, e, p, false, false));
        if kv {
            pl.case(format!("bytes keyword {}", t), move |c| bytes::<KVParams>(c, n, dim, e, p, false, false));
        }
        pl.case(format!("text index {}", t), move |c| bytes::<IndexParams>(c, n, dim, e, p, true, false));
        if kv {
            pl.case(format!("text keyword {}", t), move |c| bytes::<KVParams>(c, n, dim, e, p, true, false));
        }
        pl.case(format!("file index {}", t), move |c| bytes::<IndexParams>(c, n, dim, e, p, true, true));
    }
    let two: &[(usize, usize, usize, usize)] = if th { &[(3, 2, 21, 8), (1, 1, 8, 8), (5, 3, 33, 31)] } else { &[(3, 2, 21, 8)] };
    for &(n, dim, e, p) in two {
        for part in 0..8 {
            let t = format!("n={} dim={} e={} p={} part {}", n, dim, e, p, part);
            pl.case(format!("alter two index {}", t), move |c| pairs::<IndexParams>(c, n, dim, e, p, part, 8));
            pl.case(format!("alter two keyword {}", t), move |c| pairs::<KVParams>(c, n, dim, e, p, part, 8));
        }
    }
    for e in [0usize, 1, 2, 7, 8, 9, 15, 16, 21, 31, 32, 33, 62, 64, 93, 255] {
        let top = if th { 33 } else { 9 };
        pl.case(format!("shapes index e={}", e), move |c| shapes::<IndexParams>(c, e, top));
        pl.case(format!("shapes keyword e={}", e), move |c| shapes::<KVParams>(c, e, top));
    }
    for n in [1usize, 3, 12, 100, 700] {
        pl.case(format!("filter fields n={}", n), move |c| filters(c, n));
    }
    for n in [1usize, 2, 5] {
        for dim in [1usize, 2, 5] {
            pl.case(format!("matrices index n={} dim={}", n, dim), move |c| matrices::<IndexParams>(c, n, dim));
            pl.case(format!("matrices keyword n={} dim={}", n, dim), move |c| matrices::<KVParams>(c, n, dim));
        }
    }
}
