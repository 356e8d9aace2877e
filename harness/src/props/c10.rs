//! C10: saving and restoring any protocol object changes nothing.
use crate::engine::*;
use crate::util::*;
use bincode::Options;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{FilterParams, IndexDatabase, KVDatabase, KeyValue};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::hash_map::DefaultHasher;
use xorf::{Filter, HashProxy};

/// 0 keeps the object; the others save and restore it.
const FORMATS: usize = 6;
const NAMES: [&str; FORMATS] =
    ["not saved", "bincode", "bincode big-endian varint", "JSON", "JSON value", "JSON pretty, twice"];

fn rt<T: Serialize + DeserializeOwned>(x: T, fmt: usize, what: &str) -> Result<T, String> {
    let e = |d: &dyn std::fmt::Display| format!("{} in {}: {}", what, NAMES[fmt], d);
    Ok(match fmt {
        0 => x,
        1 => {
            let b = bincode::serialize(&x).map_err(|d| e(&d))?;
            bincode::deserialize(&b).map_err(|d| e(&d))?
        }
        2 => {
            let o = || bincode::options().with_big_endian().with_varint_encoding();
            let b = o().serialize(&x).map_err(|d| e(&d))?;
            o().deserialize(&b).map_err(|d| e(&d))?
        }
        3 => {
            let s = serde_json::to_string(&x).map_err(|d| e(&d))?;
            serde_json::from_str(&s).map_err(|d| e(&d))?
        }
        4 => {
            let v = serde_json::to_value(&x).map_err(|d| e(&d))?;
            serde_json::from_value(v).map_err(|d| e(&d))?
        }
        _ => {
            let s = serde_json::to_vec_pretty(&x).map_err(|d| e(&d))?;
            let y: T = serde_json::from_slice(&s).map_err(|d| e(&d))?;
            let mut buf = vec![];
            serde_json::to_writer(&mut buf, &y).map_err(|d| e(&d))?;
            serde_json::from_reader(&buf[..]).map_err(|d| e(&d))?
        }
    })
}
fn same<T: Serialize>(a: &T, b: &T, what: &str) -> R {
    let (x, y) = (
        bincode::serialize(a).map_err(|e| e.to_string())?,
        bincode::serialize(b).map_err(|e| e.to_string())?,
    );
    if x != y {
        return Err(format!("{}: the restored object saves to other bytes", what));
    }
    Ok(())
}

struct Golden {
    q: Vec<u32>,
    r: Vec<u8>,
    row: Vec<u32>,
    bytes: Vec<u8>,
}

fn same_params<P: BaseParams>(a: &P, b: &P) -> R {
    let s: Vec<u32> = (0..a.get_dim() as u64).map(|i| sm(i) as u32).collect();
    let x = (
        a.get_dim() == b.get_dim(),
        a.get_total_records() == b.get_total_records(),
        a.get_elem_size() == b.get_elem_size(),
        a.get_plaintext_bits() == b.get_plaintext_bits(),
        a.get_public_seed() == b.get_public_seed(),
        a.get_rhs() == b.get_rhs(),
        a.mult_right(&s).ok() == b.mult_right(&s).ok(),
    );
    if x != (true, true, true, true, true, true, true) {
        return Err(format!(
            "restored parameters differ (dim, records, element size, bits, seed, hint, product): {:?}",
            x
        ));
    }
    Ok(())
}

/// Every choice of format at every step of an exchange.
fn index(c: &mut Case, m: usize, dim: usize, e: usize, p: usize, kind: usize, nf: usize) -> R {
    let el = elements(kind, m, e);
    let shard = Shard::from_base64_strings(&b64s(&el), dim, m, e, p).map_err(|x| x.to_string())?;
    let row = m / 2;
    let coins: Vec<usize> = (0..dim + m).map(|i| (sm(i as u64) % 3) as usize).collect();
    let tape = crate::util::coins(&coins);
    let make = |cp: &CommonParams, s: &Shard| {
        let _env = Env::install(&tape, &[]);
        generate_index_query_params(cp, s.get_base_params()).map_err(|x| x.to_string())
    };
    let cp0 = CommonParams::from(shard.get_base_params());
    let mut qp = make(&cp0, &shard)?;
    let q = qp.generate_query(row).map_err(|x| x.to_string())?;
    let r = shard.answer(&q)?;
    let g = Golden {
        q: q.as_slice().to_vec(),
        row: qp.parse_resp_as_row(&resp_of(&r)?),
        bytes: qp.parse_resp_as_bytes(&resp_of(&r)?),
        r,
    };
    if g.bytes != el[row] {
        return Err("plain retrieval already differs".into());
    }
    c.explore(|c, ch| {
        let mut fs = vec![];
        let mut pick = |ch: &mut Chooser| {
            let f = ch.choose(nf);
            fs.push(f);
            f
        };
        let s2 = rt(shard.clone(), pick(ch), "Shard")?;
        let bp2 = rt(s2.get_base_params().clone(), pick(ch), "IndexParams")?;
        same_params(shard.get_base_params(), &bp2)?;
        let cp2 = rt(CommonParams::from(&bp2), pick(ch), "CommonParams")?;
        if cp2.as_matrix() != cp0.as_matrix() {
            return Err("the restored public matrix differs".into());
        }
        let mut qp2 = {
            let _env = Env::install(&tape, &[]);
            generate_index_query_params(&cp2, &bp2).map_err(|x| x.to_string())?
        };
        qp2 = rt(qp2, pick(ch), "QueryParams before use")?;
        if qp2.used {
            return Err("unused query parameters are restored as used".into());
        }
        let q = qp2
            .generate_query(row)
            .map_err(|x| format!("no query: {}", x))?;
        qp2 = rt(qp2, pick(ch), "QueryParams after use")?;
        if !qp2.used || qp2.generate_query(row).is_ok() {
            return Err("used query parameters are restored as unused".into());
        }
        let q = rt(q, pick(ch), "Query")?;
        if q.as_slice() != g.q {
            return Err("the query differs".into());
        }
        let b = s2.answer(&q)?;
        if b != g.r {
            return Err("the answer differs".into());
        }
        let r = rt(resp_of(&b)?, pick(ch), "Response")?;
        if qp2.parse_resp_as_row(&r) != g.row
            || qp2.parse_resp_as_bytes(&r) != g.bytes
            || qp2.parse_resp_as_base64(&r) != b64(&g.bytes)
        {
            return Err("the decoded element differs".into());
        }
        c.steps(fs.len() as u64 + 4);
        c.state(&(m, dim, e, p, kind, &fs));
        c.outcome(&(h64(&g.r), h64(&g.row)));
        c.trace();
        Ok(())
    })?;
    // The restored server object by itself
    for f in 1..FORMATS {
        let s2 = rt(shard.clone(), f, "Shard")?;
        same(&shard, &s2, "Shard")?;
        let db = s2.get_db();
        let head = |d: &IndexDatabase| {
            (d.get_matrix_height(), d.get_elem_size(), d.get_plaintext_bits(), d.get_row_width_self())
        };
        if head(db) != head(shard.get_db()) {
            return Err(format!("restored from {}: dimensions {:?}", NAMES[f], head(db)));
        }
        let it: Vec<String> = s2.into_row_iter().collect();
        if it != b64s(&el) {
            return Err(format!("restored from {}: rows differ", NAMES[f]));
        }
        if matrix_of(&s2, m)? != matrix_of(&shard, m)? {
            return Err(format!("restored from {}: answers differ", NAMES[f]));
        }
        let d2 = rt(shard.get_db().clone(), f, "IndexDatabase")?;
        if (0..m).any(|i| d2.get_db_entry(i) != it[i]) {
            return Err(format!("database restored from {}: rows differ", NAMES[f]));
        }
        let _ = make(&cp0, &s2)?;
        c.steps(4);
    }
    Ok(())
}

fn kv(c: &mut Case, n: usize, dim: usize, e: usize, p: usize, kind: usize, nf: usize) -> R {
    let keys = keyset(kind, n);
    let (kvs, el) = kvs_of(&keys, kind, e, p);
    let shard = KVShard::new(&kvs, dim, n, e, p).map_err(|x| x.to_string())?;
    let i = n / 2;
    let key = keys[i];
    let cp0 = CommonParams::from(shard.get_base_params());
    let h = cp0.as_matrix().len();
    let coins: Vec<usize> = (0..dim + h).map(|i| (sm(i as u64) % 3) as usize).collect();
    let tape = crate::util::coins(&coins);
    let make = |cp: &CommonParams, bp: &keyword_pir_lwe::db::KVParams| {
        let _env = Env::install(&tape, &[]);
        generate_kv_query_params(cp, bp).map_err(|x| x.to_string())
    };
    let mut qp = make(&cp0, shard.get_base_params())?;
    let q = qp.generate_query(&key).map_err(|x| x.to_string())?;
    let r = shard.answer(&q)?;
    let g = Golden {
        q: q.as_slice().to_vec(),
        row: qp.parse_resp_as_row(&resp_of(&r)?, &key).map_err(|x| x.to_string())?,
        bytes: qp.parse_resp_as_bytes(&resp_of(&r)?, &key).map_err(|x| x.to_string())?,
        r,
    };
    if g.bytes != el[i] {
        return Err("plain retrieval already differs".into());
    }
    c.explore(|c, ch| {
        let mut fs = vec![];
        let mut pick = |ch: &mut Chooser| {
            let f = ch.choose(nf);
            fs.push(f);
            f
        };
        let s2 = rt(shard.clone(), pick(ch), "KVShard")?;
        let bp2 = rt(s2.get_base_params().clone(), pick(ch), "KVParams")?;
        same_params(shard.get_base_params(), &bp2)?;
        let cp2 = rt(CommonParams::from(&bp2), pick(ch), "CommonParams")?;
        if cp2.as_matrix() != cp0.as_matrix() {
            return Err("the restored public matrix differs".into());
        }
        let mut qp2 = make(&cp2, &bp2)?;
        qp2 = rt(qp2, pick(ch), "QueryParams before use")?;
        if qp2.used {
            return Err("unused query parameters are restored as used".into());
        }
        let q = qp2
            .generate_query(&key)
            .map_err(|x| format!("no query: {}", x))?;
        qp2 = rt(qp2, pick(ch), "QueryParams after use")?;
        if !qp2.used || qp2.generate_query(&key).is_ok() {
            return Err("used query parameters are restored as unused".into());
        }
        let q = rt(q, pick(ch), "Query")?;
        if q.as_slice() != g.q {
            return Err("the query differs".into());
        }
        let b = s2.answer(&q)?;
        if b != g.r {
            return Err("the answer differs".into());
        }
        let r = rt(resp_of(&b)?, pick(ch), "Response")?;
        let got = (
            qp2.parse_resp_as_row(&r, &key).map_err(|x| x.to_string())?,
            qp2.parse_resp_as_bytes(&r, &key).map_err(|x| x.to_string())?,
            qp2.parse_resp_as_base64(&r, &key).map_err(|x| x.to_string())?,
        );
        if got.0 != g.row || got.1 != g.bytes || got.2 != b64(&g.bytes) {
            return Err("the decoded value differs".into());
        }
        c.steps(fs.len() as u64 + 4);
        c.state(&(n, dim, e, p, kind, &fs));
        c.outcome(&(h64(&g.r), h64(&g.row)));
        c.trace();
        Ok(())
    })?;
    for f in 1..FORMATS {
        let s2 = rt(shard.clone(), f, "KVShard")?;
        same(&shard, &s2, "KVShard")?;
        let head = |d: &KVDatabase| {
            (d.get_matrix_height(), d.get_elem_size(), d.get_plaintext_bits(), d.get_row_width_self())
        };
        if head(s2.get_db()) != head(shard.get_db()) || s2.get_db().entries != shard.get_db().entries {
            return Err(format!("restored from {}: database differs", NAMES[f]));
        }
        if matrix_of(&s2, h)? != matrix_of(&shard, h)? {
            return Err(format!("restored from {}: answers differ", NAMES[f]));
        }
        let d2: KVDatabase = rt(shard.get_db().clone(), f, "KVDatabase")?;
        let fp: FilterParams = rt(shard.get_base_params().get_filter_params(), f, "FilterParams")?;
        let f0 = shard.get_db().get_filter_params();
        for k in &keys {
            let x = (f0.get_hash_evals(k), f0.unmask_value(5, k, 3));
            for y in [&fp, d2.get_filter_params(), s2.get_db().get_filter_params()] {
                if (y.get_hash_evals(k), y.unmask_value(5, k, 3)) != x {
                    return Err(format!("restored from {}: key positions or mask differ", NAMES[f]));
                }
            }
        }
        for kv in &kvs {
            let k2: KeyValue = rt(kv.clone(), f, "KeyValue")?;
            if k2.key != kv.key || k2.value != kv.value {
                return Err(format!("restored from {}: pair differs", NAMES[f]));
            }
        }
        c.steps(5);
    }
    Ok(())
}

/// Membership filters: every key of a universe is judged alike.
fn filters(c: &mut Case, n: usize) -> R {
    let keys: Vec<u64> = (0..n as u64).map(|i| if i % 3 == 0 { i } else { sm(i) }).collect();
    let probe: Vec<u64> = keys.iter().cloned().chain((0..3000u64).map(|i| sm(i + 1_000_000))).collect();
    macro_rules! one {
        ($t:ty, $new:expr) => {{
            let made: Result<$t, String> = $new;
            if let Ok(f) = made {
                let before: Vec<bool> = probe.iter().map(|k| f.contains(k)).collect();
                let len = f.len();
                let fps: Vec<u64> = f.fingerprints.iter().map(|x| *x as u64).collect();
                let mut f = f;
                // one after the other, restored from the restored
                for fmt in 1..FORMATS {
                    f = rt(f, fmt, stringify!($t))?;
                    let after: Vec<bool> = probe.iter().map(|k| f.contains(k)).collect();
                    let fps2: Vec<u64> = f.fingerprints.iter().map(|x| *x as u64).collect();
                    if after != before || f.len() != len || fps != fps2 {
                        return Err(format!(
                            "{} of {} keys restored from {} differs",
                            stringify!($t),
                            n,
                            NAMES[fmt]
                        ));
                    }
                    c.steps(probe.len() as u64);
                    c.state(&(n, stringify!($t), fmt));
                    c.trace();
                }
                c.outcome(&(stringify!($t), h64(&before)));
            }
        }};
    }
    one!(xorf::Xor8, Ok(xorf::Xor8::from(&keys)));
    one!(xorf::Xor16, Ok(xorf::Xor16::from(&keys)));
    one!(xorf::Xor32, Ok(xorf::Xor32::from(&keys)));
    one!(xorf::BinaryFuse8, xorf::BinaryFuse8::try_from(&keys).map_err(|e| e.to_string()));
    one!(xorf::BinaryFuse16, xorf::BinaryFuse16::try_from(&keys).map_err(|e| e.to_string()));
    one!(xorf::BinaryFuse32, xorf::BinaryFuse32::try_from(&keys).map_err(|e| e.to_string()));
    #[allow(deprecated)]
    {
        one!(xorf::Fuse8, xorf::Fuse8::try_from(&keys).map_err(|e| e.to_string()));
        one!(xorf::Fuse16, xorf::Fuse16::try_from(&keys).map_err(|e| e.to_string()));
        one!(xorf::Fuse32, xorf::Fuse32::try_from(&keys).map_err(|e| e.to_string()));
    }
    macro_rules! proxy {
        ($t:ty) => {{
            let strs: Vec<String> = keys.iter().map(|k| format!("{}", k)).collect();
            let mut f: HashProxy<String, DefaultHasher, $t> = HashProxy::from(&strs);
            let pr: Vec<String> = probe.iter().map(|k| format!("{}", k)).collect();
            let before: Vec<bool> = pr.iter().map(|k| f.contains(k)).collect();
            let len = f.len();
            for fmt in 1..FORMATS {
                f = rt(f, fmt, "HashProxy")?;
                let after: Vec<bool> = pr.iter().map(|k| f.contains(k)).collect();
                if after != before || f.len() != len {
                    return Err(format!("HashProxy over {} restored from {} differs", stringify!($t), NAMES[fmt]));
                }
                c.steps(probe.len() as u64);
                c.state(&(n, stringify!($t), "proxy", fmt));
                c.trace();
            }
        }};
    }
    proxy!(xorf::Xor8);
    proxy!(xorf::Xor16);
    proxy!(xorf::Xor32);
    Ok(())
}

fn modp(c: &mut Case, n: usize) -> R {
    let keys = keyset(0, n);
    let data: Vec<u32> = (0..n as u64).map(|i| sm(i) as u32).collect();
    for p in [256u64, 1000, 1024, 1 << 31, 1 << 32] {
        let mut f = None;
        for s in 0..50u8 {
            if let Ok(x) = xorf::BinaryFuseP32::from_slice([s + 9; 32], &keys, &data, 7, p) {
                f = Some(x);
                break;
            }
        }
        let mut f = f.ok_or("no mod-p filter")?;
        let before: Vec<u32> = keys.iter().map(|k| f.retrieve(k, 7)).collect();
        let fm = f.get_fingerprints_mod();
        for fmt in 1..FORMATS {
            f = rt(f, fmt, "BinaryFuseP32")?;
            let after: Vec<u32> = keys.iter().map(|k| f.retrieve(k, 7)).collect();
            if after != before || fm != f.get_fingerprints_mod() || before.iter().zip(&data).any(|(a, b)| *a as u64 != *b as u64 % p) {
                return Err(format!("mod-{} filter restored from {} differs", p, NAMES[fmt]));
            }
            c.steps(n as u64);
            c.state(&(n, p, fmt));
            c.trace();
        }
    }
    Ok(())
}

/// Objects with more than 2^16 rows or columns.
fn scale(c: &mut Case, kvdb: bool, n: usize, e: usize, p: usize) -> R {
    for f in 1..FORMATS {
        if kvdb {
            let (kvs, _) = kvs_of(&keyset(0, n), 0, e, p);
            let s = KVShard::new(&kvs, 1, n, e, p).map_err(|x| x.to_string())?;
            let s2 = rt(s.clone(), f, "KVShard")?;
            same(&s, &s2, "KVShard")?;
            same_params(s.get_base_params(), s2.get_base_params())?;
            if s2.get_db().entries != s.get_db().entries {
                return Err(format!("n={} e={}: restored from {}: matrix differs", n, e, NAMES[f]));
            }
            let q: Vec<u32> = (0..s.get_db().get_matrix_height()).map(|i| sm(i as u64) as u32).collect();
            if s.answer_words(&q)? != s2.answer_words(&q)? {
                return Err(format!("n={} e={}: restored from {}: answers differ", n, e, NAMES[f]));
            }
        } else {
            let el = b64s(&elements(0, n, e));
            let s = Shard::from_base64_strings(&el, 1, n, e, p).map_err(|x| x.to_string())?;
            let s2 = rt(s.clone(), f, "Shard")?;
            same(&s, &s2, "Shard")?;
            same_params(s.get_base_params(), s2.get_base_params())?;
            let it: Vec<String> = s2.into_row_iter().collect();
            if it != el {
                return Err(format!("m={} e={}: restored from {}: rows differ", n, e, NAMES[f]));
            }
            let q: Vec<u32> = (0..n).map(|i| sm(i as u64) as u32).collect();
            let (a, b) = (s.answer_words(&q)?, s2.answer_words(&q)?);
            if a != b {
                return Err(format!("m={} e={}: restored from {}: answers differ", n, e, NAMES[f]));
            }
            let (q2, r2) = (rt(query_from(&q), f, "Query")?, rt(resp_from(&a), f, "Response")?);
            if q2.as_slice() != q || r2.as_slice() != a {
                return Err(format!("message restored from {} differs", NAMES[f]));
            }
            let cp = CommonParams::from(s.get_base_params());
            if rt(CommonParams::from(s.get_base_params()), f, "CommonParams")?.as_matrix() != cp.as_matrix() {
                return Err("the restored public matrix differs".into());
            }
            let mut qp = generate_index_query_params(&cp, s.get_base_params()).map_err(|x| x.to_string())?;
            let mut qp2 = rt(qp.clone(), f, "QueryParams")?;
            let row = n - 1;
            if qp.generate_query(row).map_err(|x| x.to_string())?.as_slice()
                != qp2.generate_query(row).map_err(|x| x.to_string())?.as_slice()
            {
                return Err(format!("m={}: query differs when restored from {}", n, NAMES[f]));
            }
            if qp.parse_resp_as_row(&resp_from(&a)) != qp2.parse_resp_as_row(&resp_from(&a)) {
                return Err(format!("m={}: decoding differs when restored from {}", n, NAMES[f]));
            }
        }
        c.steps(8);
        c.state(&(kvdb, n, e, p, f));
        c.trace();
    }
    c.outcome(&(kvdb, n, e, p));
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let nf = if th { FORMATS } else { 4 };
    pl.bound(format!("all {}^7 assignments of a format (none, 2 binary, JSON{}) to the 7 objects of an index exchange and of a keyword exchange, for several shapes and contents", nf, if th { ", JSON value, pretty JSON twice" } else { "" }));
    pl.bound("each object alone in 5 formats; all 9 membership filters, proxies and the mod-p filter for sizes 0..5000");
    for (m, dim, e, p, kind) in [(1usize, 1usize, 8usize, 8usize, 1usize), (5, 3, 33, 11, 0), (3, 2, 62, 31, 1), (2, 4, 9, 1, 7)] {
        pl.case(format!("index m={} e={} p={}", m, e, p), move |c| index(c, m, dim, e, p, kind, nf));
    }
    for (n, dim, e, p, kind) in [(1usize, 1usize, 8usize, 8usize, 1usize), (5, 3, 33, 11, 0), (3, 2, 18, 9, 6)] {
        pl.case(format!("keyword n={} e={} p={}", n, e, p), move |c| kv(c, n, dim, e, p, kind, nf));
    }
    // more shapes, fewer combinations
    for p in [2usize, 5, 10, 13] {
        for e in [1usize, 7, 16, 41, 256] {
            pl.case(format!("index grid e={} p={}", e, p), move |c| {
                for kind in 0..KINDS {
                    index(c, 3, 5, e, p, kind, 2)?;
                }
                Ok(())
            });
            if p >= 8 {
                pl.case(format!("keyword grid e={} p={}", e, p), move |c| {
                    for kind in 0..KINDS {
                        kv(c, 4, 5, e, p, kind, 2)?;
                    }
                    Ok(())
                });
            }
        }
    }
    pl.bound("scale: shards of 70000 rows and of 70000 columns in 5 formats");
    for (n, e, p) in [(70_000usize, 8usize, 7usize), (2, 70_000, 1), (66_000, 40, 31)] {
        pl.case(format!("scale m={} e={}", n, e), move |c| scale(c, false, n, e, p));
    }
    for (n, e, p) in [(60_000usize, 9usize, 9usize), (2, 70_000 * 8, 8)] {
        pl.case(format!("scale kv n={} e={}", n, e), move |c| scale(c, true, n, e, p));
    }
    for n in [0usize, 1, 2, 3, 10, 90, 100, 500, 1000, 5000] {
        pl.case(format!("filters n={}", n), move |c| filters(c, n));
    }
    for n in [1usize, 2, 10, 500] {
        pl.case(format!("mod-p n={}", n), move |c| modp(c, n));
    }
}
