//! C27: every step costs no more than the scheme promises.
#![allow(deprecated)]
use crate::engine::*;
use crate::util::*;
use crate::{mem, sched, zoo};
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{BaseParams, DatabaseMatrix, KVDatabase, KeyValue};
use xorf::{BinaryFuseP32, Filter};

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
/// What one step costs: basic blocks of the code under test (in the build
/// that counts them), bytes allocated in all and at most at once.
struct Cost {
    blocks: u64,
    total: u64,
    peak: u64,
}
fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    mem::start();
    let b = sched::work();
    let r = f();
    let blocks = sched::work() - b;
    let m = mem::stop();
    (r, Cost { blocks, total: m.total, peak: m.peak.max(0) as u64 })
}
/// The largest multiples of the promised costs that are accepted; those of
/// the code as it is are below an eighth of them.
struct Limits {
    blocks: f64,
    bytes: f64,
}
const L: f64 = 8.0;
struct Judge {
    what: String,
    worst: Vec<(String, f64, f64)>,
}
impl Judge {
    /// `work`: multiplications, digits and bits that the step has to handle;
    /// `bytes`: bytes of its arguments and results that it has to touch.
    fn step(&mut self, c: &mut Case, name: &str, lim: &Limits, work: usize, bytes: usize, k: &Cost) -> R {
        c.steps(1);
        // copies of what the work passes over are no other growth
        let copied = (k.total as f64 - 16.0 * work as f64).max(k.peak as f64);
        let (rb, rm) = (k.blocks as f64 / (work as f64 + 100.0), copied / (bytes as f64 + 400.0));
        match self.worst.iter_mut().find(|w| w.0 == name) {
            Some(w) => {
                w.1 = w.1.max(rb);
                w.2 = w.2.max(rm);
            }
            None => self.worst.push((name.into(), rb, rm)),
        }
        if std::env::var_os("MC_CALIBRATE").is_some() {
            return Ok(());
        }
        if rb > lim.blocks * L {
            return Err(format!("{}: {}: {} basic blocks for work of {}", self.what, name, k.blocks, work));
        }
        if rm > lim.bytes * L {
            return Err(format!(
                "{}: {}: {} bytes allocated ({} at once) for {} bytes of arguments and results",
                self.what, name, k.total, k.peak, bytes
            ));
        }
        Ok(())
    }
    fn done(self, c: &mut Case) -> R {
        c.state(&self.what);
        c.trace();
        if std::env::var_os("MC_CALIBRATE").is_some() {
            for w in &self.worst {
                eprintln!("CAL {:30} {:8.3} {:8.3}  {}", w.0, w.1, w.2, self.what);
            }
        }
        c.sample(format!("{}: {:?}", self.what, self.worst));
        Ok(())
    }
}
const fn lim(blocks: f64, bytes: f64) -> Limits {
    Limits { blocks, bytes }
}

fn index(c: &mut Case, m: usize, e: usize, p: usize, dim: usize) -> R {
    getrandom::set_thread_stream(7);
    let w = width(e, p);
    let mut j = Judge { what: format!("index m={} e={} p={} dim={}", m, e, p, dim), worst: vec![] };
    let el = b64s(&elements(0, m, e));
    let data = m * e + m * w;
    let (sh, k) = measure(|| Shard::from_base64_strings(&el, dim, m, e, p));
    let sh = sh.map_err(s)?;
    j.step(c, "build", &BUILD, data + dim * m * w + dim * m, m * e + 4 * (m * w + dim * m + dim * w), &k)?;
    let bp = sh.get_base_params();
    let (cp, k) = measure(|| CommonParams::from(bp));
    j.step(c, "derive", &DERIVE, dim * m, 4 * dim * m + 24 * m, &k)?;
    let (qp, k) = measure(|| generate_index_query_params(&cp, bp));
    let mut qp = qp.map_err(s)?;
    j.step(c, "prepare", &PREPARE, dim * (m + w) + m + w, 4 * (dim + m + w), &k)?;
    for row in [0, m / 2, m - 1] {
        let mut q2 = qp.clone();
        let (q, k) = measure(|| q2.generate_query(row));
        j.step(c, "query", &QUERY, m, 4 * m, &k)?;
        let q = q.map_err(s)?;
        let (r, k) = measure(|| q2.generate_query(row).is_ok());
        j.step(c, "refused query", &REFUSED, 0, 4 * m, &k)?;
        if r {
            return Err("a second query".into());
        }
        let (r, k) = measure(|| sh.respond(&q));
        j.step(c, "answer", &ANSWER, m * w, 4 * (w + m), &k)?;
        let r = resp_of(&r.map_err(s)?)?;
        let (_, k) = measure(|| q2.parse_resp_as_row(&r));
        j.step(c, "decode digits", &DIGITS, w, 4 * w, &k)?;
        let (_, k) = measure(|| q2.parse_resp_as_base64(&r));
        j.step(c, "decode text", &TEXT, w + e + w * p, 4 * w + e + w * p, &k)?;
        let (_, k) = measure(|| sh.get_db().get_db_entry(row));
        j.step(c, "entry", &TEXT, w + e + w * p, 4 * w + e + w * p, &k)?;
    }
    let (r, k) = measure(|| qp.generate_query(m).is_ok());
    j.step(c, "refused row", &REFUSED, 0, 4 * m, &k)?;
    let bad = query_from(&vec![1; m + 1]);
    let (r2, k) = measure(|| sh.respond(&bad).is_ok());
    j.step(c, "refused answer", &REFUSED, 0, 4 * m, &k)?;
    if r || r2 {
        return Err("a bad request succeeds".into());
    }
    let (n, k) = measure(|| sh.into_row_iter().count());
    j.step(c, "all rows", &TEXT, m * (w + e + w * p), m * (4 * w + e + w * p + 32), &k)?;
    if n != m {
        return Err(format!("{} rows", n));
    }
    let sc = scratch("cost")?;
    let (a, b) = (format!("{}/db", sc.path), format!("{}/params", sc.path));
    let (r, k) = measure(|| sh.write_to_file(&a, &b));
    r.map_err(s)?;
    let words = m * w + dim * w;
    j.step(c, "write", &WRITE, words, 40 * words + 9000, &k)?;
    let (r, k) = measure(|| keyword_pir_lwe::db::IndexParams::load(&b));
    r.map_err(s)?;
    j.step(c, "load parameters", &LOAD, dim * w, 4 * dim * w + 24 * w + 9000, &k)?;
    std::fs::write(&a, serde_json::to_vec(&el).unwrap()).map_err(s)?;
    let (r, k) = measure(|| Shard::from_json_file(&a, dim, m, e, p));
    r.map_err(s)?;
    j.step(c, "load database", &BUILD, data + dim * m * w + dim * m, m * e + 60 * m + 4 * (m * w + dim * m + dim * w), &k)?;
    j.done(c)
}

fn keyword(c: &mut Case, n: usize, e: usize, p: usize, dim: usize) -> R {
    getrandom::set_thread_stream(11);
    let w = width(e, p);
    let mut j = Judge { what: format!("keyword n={} e={} p={} dim={}", n, e, p, dim), worst: vec![] };
    let names: Vec<String> = (0..n).map(|i| format!("name {}", i)).collect();
    let vals = b64s(&elements(0, n, e));
    let (sh, k) = measure(|| KVShard::from_base64_strings(&names, &vals, dim, n, e, p));
    let sh = sh.map_err(s)?;
    let bp = sh.get_base_params();
    let h = bp.get_total_records();
    let data = n * e + (n + h) * w;
    let all = n * (e + 200) + 4 * (h * w + dim * h + dim * w);
    j.step(c, "build", &KV_BUILD, data + n * 20 + h * 20 + dim * h * w + dim * h, all + 100 * h, &k)?;
    let kvs: Vec<KeyValue> = names
        .iter()
        .zip(&vals)
        .map(|(k, v)| KeyValue::from_base64_strings(k, v, e, p).map_err(s))
        .collect::<Result<_, _>>()?;
    let (r, k) = measure(|| KVDatabase::new(&kvs, n, e, p));
    r.map_err(s)?;
    j.step(c, "database", &KV_DB, (n + h) * (w + 20), 4 * h * w + 100 * (n + h), &k)?;
    let (cp, k) = measure(|| CommonParams::from(bp));
    j.step(c, "derive", &DERIVE, dim * h, 4 * dim * h + 24 * h, &k)?;
    let (qp, k) = measure(|| generate_kv_query_params(&cp, bp));
    let qp = qp.map_err(s)?;
    j.step(c, "prepare", &PREPARE, dim * (h + w) + h + w, 4 * (dim + h + w), &k)?;
    for i in [0, n / 2, n - 1] {
        let key = kvs[i].key;
        let mut q2 = qp.clone();
        let (q, k) = measure(|| q2.generate_query(&key));
        j.step(c, "query", &QUERY, h, 4 * h, &k)?;
        let q = q.map_err(s)?;
        let (_, k) = measure(|| q2.generate_query(&key).is_ok());
        j.step(c, "refused query", &REFUSED, 0, 4 * h, &k)?;
        let (r, k) = measure(|| sh.respond(&q));
        j.step(c, "answer", &ANSWER, h * w, 4 * (w + h), &k)?;
        let r = resp_of(&r.map_err(s)?)?;
        let (d, k) = measure(|| q2.parse_resp_as_row(&r, &key));
        d.map_err(s)?;
        j.step(c, "decode digits", &KV_DIGITS, w, 4 * w, &k)?;
        let (d, k) = measure(|| q2.parse_resp_as_base64(&r, &key));
        d.map_err(s)?;
        j.step(c, "decode text", &KV_TEXT, w + e + w * p, 4 * w + e + w * p, &k)?;
    }
    let bad = query_from(&vec![1; h + 1]);
    let (_, k) = measure(|| sh.respond(&bad).is_ok());
    j.step(c, "refused answer", &REFUSED, 0, 4 * h, &k)?;
    let sc = scratch("cost")?;
    let (a, b) = (format!("{}/db", sc.path), format!("{}/params", sc.path));
    let (r, k) = measure(|| sh.write_to_file(&a, &b));
    r.map_err(s)?;
    let words = h * w + dim * w;
    j.step(c, "write", &WRITE, words, 40 * words + 9000, &k)?;
    let list: Vec<serde_json::Value> =
        names.iter().zip(&vals).map(|(k, v)| serde_json::json!({"key": k, "value": v})).collect();
    std::fs::write(&a, serde_json::to_vec(&list).unwrap()).map_err(s)?;
    let (r, k) = measure(|| KVShard::from_json_file(&a, dim, n, e, p));
    r.map_err(s)?;
    j.step(c, "load database", &KV_BUILD, data + n * 20 + h * 20 + dim * h * w + dim * h, all + 100 * h + 200 * n, &k)?;
    j.done(c)
}

fn filters(c: &mut Case, n: usize) -> R {
    for f in 0..zoo::NAMES.len() {
        // fuse filters are not made for small sets
        if zoo::is_fuse(f) && n < 200_000 {
            continue;
        }
        let mut j = Judge { what: format!("{} of {} keys", zoo::NAMES[f], n), worst: vec![] };
        let keys = zoo::keys(3, n);
        let (r, k) = measure(|| zoo::build(f, 0, &keys));
        let r = r.map_err(|e| format!("{}: {}", j.what, e))?.map_err(|e| format!("{}: {}", j.what, e))?;
        j.step(c, "filter", &FILTER, 20 * n, 40 * n, &k)?;
        for i in [0, 1, n as u64 / 2, u64::MAX] {
            let (_, k) = measure(|| (r.look)(i));
            j.step(c, "lookup", &LOOKUP, 0, 0, &k)?;
        }
        j.done(c)?;
    }
    let mut j = Judge { what: format!("mod-p filter of {} keys", n), worst: vec![] };
    let keys = keyset(0, n.max(1));
    let data: Vec<u32> = (0..keys.len() as u32).collect();
    let (mut made, mut i) = (None, 0u64);
    while made.is_none() && i < 60 {
        let mut seed = [0u8; 32];
        seed[..8].copy_from_slice(&sm(i).to_le_bytes());
        let (r, k) = measure(|| BinaryFuseP32::from_slice(seed, &keys, &data, i, 1 << 10));
        j.step(c, "filter", &FILTER, 20 * n, 40 * n, &k)?;
        made = r.ok().map(|f| (f, seed, i));
        i += 1;
    }
    let (f, seed, label) = made.ok_or("no filter in 60 attempts")?;
    let (_, k) = measure(|| f.retrieve(&keys[0], label));
    j.step(c, "retrieve", &LOOKUP, 0, 0, &k)?;
    let (_, k) = measure(|| BinaryFuseP32::hash_eval(&keys[0], seed, f.segment_length, f.segment_length_mask, f.segment_count_length));
    j.step(c, "positions", &LOOKUP, 0, 0, &k)?;
    let (_, k) = measure(|| f.get_fingerprints_mod());
    j.step(c, "fingerprints", &WORDS, f.len(), 4 * f.len(), &k)?;
    j.done(c)
}

/// Multiples on the tree as it is (rounded up): basic blocks, bytes.
const BUILD: Limits = lim(28.0, 13.0);
const DERIVE: Limits = lim(15.0, 1.0);
const PREPARE: Limits = lim(12.0, 4.0);
const QUERY: Limits = lim(1.0, 2.0);
const REFUSED: Limits = lim(0.5, 0.5);
const ANSWER: Limits = lim(11.0, 2.0);
const DIGITS: Limits = lim(6.0, 1.0);
const TEXT: Limits = lim(53.0, 17.0);
const WRITE: Limits = lim(90.0, 1.0);
const LOAD: Limits = lim(320.0, 4.0);
const KV_BUILD: Limits = lim(22.0, 17.0);
const KV_DB: Limits = lim(61.0, 27.0);
const KV_DIGITS: Limits = lim(37.0, 9.0);
const KV_TEXT: Limits = lim(13.0, 8.0);
const FILTER: Limits = lim(7.0, 8.0);
const LOOKUP: Limits = lim(0.5, 0.5);
const WORDS: Limits = lim(3.0, 1.0);

/// One whole exchange with an index and a keyword database of its own content.
fn exchange(i: usize) -> R {
    let (m, e, p, dim) = (3 + i % 3, 8 + i % 17, 8, 2 + i % 3);
    let el: Vec<Vec<u8>> = elements(3, m + i, e).split_off(i);
    let el = b64s(&el);
    let sh = Shard::from_base64_strings(&el, dim, m, e, p).map_err(s)?;
    let bp = sh.get_base_params();
    let cp = CommonParams::from(bp);
    let mut qp = generate_index_query_params(&cp, bp).map_err(s)?;
    let q = qp.generate_query(i % m).map_err(s)?;
    let _ = qp.generate_query(0).map_err(s);
    let _ = sh.respond(&query_from(&vec![i as u32; m + 1])).map_err(s);
    let r = resp_of(&sh.respond(&q).map_err(s)?)?;
    let _ = (qp.parse_resp_as_row(&r), qp.parse_resp_as_base64(&r), sh.into_row_iter().count());
    let b = bincode::serialize(&(&sh, &cp, &qp, &q, &r)).map_err(s)?;
    let _: (Shard, CommonParams, IQP, Query, Response) = bincode::deserialize(&b).map_err(s)?;
    let names: Vec<String> = (0..m).map(|k| format!("{} {}", i, k)).collect();
    let ks = KVShard::from_base64_strings(&names, &el, dim, m, e, p).map_err(s)?;
    let bp = ks.get_base_params();
    let cp = CommonParams::from(bp);
    let mut qp = generate_kv_query_params(&cp, bp).map_err(s)?;
    let key = sha256_into_u64_sized(names[0].as_bytes()).map_err(s)?;
    let q = qp.generate_query(&key).map_err(s)?;
    let r = resp_of(&ks.respond(&q).map_err(s)?)?;
    let _ = qp.parse_resp_as_base64(&r, &key).map_err(s)?;
    let _ = qp.generate_query(&key).map_err(s);
    let _ = Shard::from_base64_strings(&el, dim, m + 1, e, p).map_err(s);
    let _ = Shard::from_json_file(&format!("/nonexistent/{}", i), dim, m, e, p).map_err(s);
    let keys: Vec<u64> = (0..50).map(|k| sm(i as u64 * 64 + k)).collect();
    for f in (0..zoo::NAMES.len()).filter(|&f| !zoo::is_fuse(f)) {
        if let Ok(Ok(x)) = zoo::build(f, 0, &keys) {
            (x.look)(i as u64);
        }
    }
    let x = xorf::Xor8::from(&keys);
    let _ = x.contains(&keys[0]);
    Ok(())
}
fn files(i: usize, dir: &str) -> R {
    let (a, b) = (format!("{}/db{}", dir, i), format!("{}/params{}", dir, i));
    let el = b64s(&elements(3, 3 + i, 16).split_off(i));
    std::fs::write(&a, serde_json::to_vec(&el).unwrap()).map_err(s)?;
    let sh = Shard::from_json_file(&a, 2, 3, 16, 8).map_err(s)?;
    sh.write_to_file(&a, &b).map_err(s)?;
    keyword_pir_lwe::db::IndexParams::load(&b).map_err(s)?;
    let list: Vec<serde_json::Value> =
        el.iter().enumerate().map(|(k, v)| serde_json::json!({"key": format!("{} {}", i, k), "value": v})).collect();
    std::fs::write(&a, serde_json::to_vec(&list).unwrap()).map_err(s)?;
    let ks = KVShard::from_json_file(&a, 2, 3, 16, 8).map_err(s)?;
    ks.write_to_file(&a, &b).map_err(s)?;
    let _ = keyword_pir_lwe::db::IndexParams::load(&a).map_err(s);
    std::fs::remove_file(&a).map_err(s)?;
    std::fs::remove_file(&b).map_err(s)
}
/// What a process holds does not grow with the number of objects it has dealt
/// with and dropped.
fn retained(c: &mut Case, what: usize, rounds: usize) -> R {
    let sc = scratch("kept")?;
    let half = rounds / 2;
    let mut at_half = 0;
    mem::start();
    for i in 0..rounds {
        let r = match what {
            0 => exchange(i),
            _ => files(i, &sc.path),
        };
        if let Err(e) = r {
            mem::stop();
            return Err(format!("round {}: {}", i, e));
        }
        if i + 1 == half {
            at_half = mem::now().live;
        }
    }
    let end = mem::stop().live;
    c.steps(rounds as u64);
    c.states_by_construction(rounds as u64);
    c.trace();
    c.sample(format!("bytes held after {} rounds: {}, after {}: {}", half, at_half, rounds, end));
    if end - at_half > 2 * (rounds - half) as i64 {
        return Err(format!(
            "{} bytes are held after {} exchanges whose objects are all dropped, {} after {}",
            at_half, half, end, rounds
        ));
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let mut shapes = vec![];
    // one parameter at a time, then pairs of them
    for m in [1usize, 2, 3, 10, 100, 1000, 10_000, 70_000] {
        shapes.push((m, 8, 8, 1));
        shapes.push((m, 64, 10, 8));
    }
    for e in [1usize, 7, 8, 64, 1000, 10_000, 100_000, 500_000] {
        shapes.push((2, e, 8, 1));
        shapes.push((2, e, 1, 3));
        shapes.push((5, e, 31, 3));
    }
    for dim in [1usize, 2, 10, 100, 1000, 10_000, 70_000] {
        shapes.push((1, 8, 8, dim));
        shapes.push((10, 64, 10, dim));
    }
    shapes.extend([(1000, 8000, 8, 10), (1000, 16, 8, 1000), (10, 8000, 8, 1000), (300, 3000, 10, 300)]);
    if th {
        shapes.extend([(1_000_000, 8, 8, 2), (2, 20_000_000, 8, 1), (2, 8, 8, 1_000_000), (3000, 3000, 10, 300)]);
    }
    shapes.sort();
    shapes.dedup();
    pl.bound("index and keyword: numbers of rows to 70000, element sizes to 500000 bits and LWE dimensions to 70000, one at a time and together; every step of an exchange, building, files");
    pl.bound("filters of 0 to 10^6 keys");
    pl.bound("bytes held over 2000 exchanges with databases of their own");
    pl.assume("a limit of eight times the present multiple separates constant factors from another growth");
    for (m, e, p, dim) in shapes {
        pl.case(format!("index m={} e={} p={} dim={}", m, e, p, dim), move |c| index(c, m, e, p, dim));
        pl.case(format!("keyword n={} e={} p={} dim={}", m, e, p.max(8), dim), move |c| keyword(c, m, e, p.max(8), dim));
    }
    for n in [0usize, 1, 2, 5, 20, 100, 1000, 10_000, 100_000, 1_000_000] {
        pl.case(format!("filters of {} keys", n), move |c| filters(c, n));
    }
    for what in 0..2 {
        pl.case(format!("held {}", what), move |c| retained(c, what, if th { 20_000 } else { 2000 }));
    }
}
