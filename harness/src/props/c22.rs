//! C22: messages and storage are as small as the scheme promises.
use crate::engine::*;
use crate::util::*;
use crate::zoo::*;
use keyword_pir_lwe::api::*;
use xorf::BinaryFuseP32;

/// (from this many keys, most slots per key)
const SLOTS: &[(usize, f64)] = &[
    (1, 12.0),
    (4, 6.1),
    (16, 3.5),
    (64, 2.16),
    (128, 2.05),
    (512, 1.7),
    (1024, 1.62),
    (2048, 1.48),
    (4096, 1.44),
    (8192, 1.36),
    (16_384, 1.32),
    (65_536, 1.25),
    (131_072, 1.22),
    (262_144, 1.19),
    (524_288, 1.16),
    (1_048_576, 1.145),
];
fn most_slots(n: usize) -> f64 {
    let r = SLOTS.iter().rev().find(|s| n >= s.0).map_or(12.0, |s| s.1);
    r * n.max(1) as f64
}
fn bin<T: serde::Serialize>(what: &str, t: &T, words: usize, extra: usize) -> R {
    let n = bincode::serialize(t).map_err(|e| e.to_string())?.len();
    if n > 4 * words + extra {
        return Err(format!("{}: {} bytes for {} words", what, n, words));
    }
    Ok(())
}
fn width(e: usize, p: usize) -> usize {
    e / p + (e % p != 0) as usize
}
/// One exchange; every message has exactly the promised number of words.
fn shape(c: &mut Case, kv: bool, kind: usize, n: usize, dim: usize, e: usize, p: usize) -> R {
    let what = format!("{} n={} dim={} e={} p={} content {}", if kv { "keyword" } else { "index" }, n, dim, e, p, kind);
    let w = width(e, p);
    let say = |m: String| Err(format!("{}: {}", what, m));
    let (h, qlen, answer, hint, cp);
    if kv {
        let keys = keyset(kind, n);
        let (kvs, _) = kvs_of(&keys, kind, e, p);
        let s = KVShard::new(&kvs, dim, n, e, p).map_err(|x| format!("{}: {}", what, x))?;
        let bp = s.get_base_params();
        h = bp.get_total_records();
        if h != s.get_db().get_matrix_height() || h as f64 > most_slots(n) {
            return say(format!("{} rows for {} keys", h, n));
        }
        cp = CommonParams::from(bp);
        let mut q = generate_kv_query_params(&cp, bp).map_err(|x| x.to_string())?;
        bin("query parameters", &q, h + w + dim, 512)?;
        let m = q.generate_query(&keys[n - 1]).map_err(|x| x.to_string())?;
        bin("query", &m, h, 64)?;
        qlen = m.as_slice().len();
        answer = s.respond(&m).map_err(|x| x.to_string())?;
        hint = bp.get_rhs().clone();
        bin("parameters", bp, dim * w + 2 * w, 512)?;
        bin("shard", &s, h * w + dim * w + 4 * w, 1024)?;
        let d = s.get_db();
        if d.entries.len() != w || d.entries.iter().any(|x| x.len() != h) {
            return say("the matrix does not have the promised shape".into());
        }
    } else {
        let s = Shard::from_base64_strings(&b64s(&elements(kind, n, e)), dim, n, e, p)
            .map_err(|x| format!("{}: {}", what, x))?;
        let bp = s.get_base_params();
        h = n;
        cp = CommonParams::from(bp);
        let mut q = generate_index_query_params(&cp, bp).map_err(|x| x.to_string())?;
        bin("query parameters", &q, h + w + dim, 512)?;
        let m = q.generate_query(n - 1).map_err(|x| x.to_string())?;
        bin("query", &m, h, 64)?;
        qlen = m.as_slice().len();
        answer = s.respond(&m).map_err(|x| x.to_string())?;
        hint = bp.get_rhs().clone();
        bin("parameters", bp, dim * w + 2 * w, 512)?;
        bin("shard", &s, h * w + dim * w + 4 * w, 1024)?;
        let mut d = s.get_db().clone();
        let tall = d.get_matrix_height();
        d.switch_fmt();
        if tall != h || (0..h).any(|i| d.get_row(i).len() != w) {
            return say("the matrix does not have the promised shape".into());
        }
    }
    if qlen != h {
        return say(format!("a query of {} words for {} rows", qlen, h));
    }
    let words = resp_of(&answer)?.as_slice().len();
    if words != w {
        return say(format!("an answer of {} words instead of {}", words, w));
    }
    if answer.len() > 4 * w + 64 {
        return say(format!("an answer of {} bytes for {} words", answer.len(), w));
    }
    if hint.len() * dim != w * dim || hint.iter().any(|x| x.len() != dim) {
        return say("the hint does not have the promised shape".into());
    }
    let a = cp.as_matrix();
    if a.len() != h || a.iter().any(|x| x.len() != dim) {
        return say("the derived matrix does not have the promised shape".into());
    }
    c.steps(5);
    c.state(&(kv, n, dim, e, p, kind, h, qlen, words));
    c.outcome(&(h, w, answer.len()));
    c.trace();
    Ok(())
}
/// Slots of the keyword database's filter, as seen by its clients.
fn modp(c: &mut Case, n: usize) -> R {
    let keys: Vec<[u64; 4]> = (0..n as u64).map(|i| [sm(i), i, sm(i + 7), 1]).collect();
    let data = vec![1u32; n];
    for t in 0..300u64 {
        let mut seed = [0u8; 32];
        for k in 0..4 {
            seed[8 * k..8 * k + 8].copy_from_slice(&sm(t * 4 + k as u64).to_le_bytes());
        }
        if let Ok(f) = BinaryFuseP32::from_slice(seed, &keys, &data, 0, 1024) {
            let l = f.fingerprints.len();
            if l as f64 > most_slots(n) {
                return Err(format!("mod-p filter of {} keys: {} slots", n, l));
            }
            c.steps(1);
            c.state(&("p", n, l));
            c.outcome(&l);
            c.trace();
            return Ok(());
        }
    }
    Err(format!("mod-p filter of {} keys: no seed works", n))
}
fn member(c: &mut Case, f: usize, n: usize) -> R {
    let flt = match build(f, n % 3, &keys(1, n))? {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let most = if f < 3 {
        1.23 * n as f64 + 33.0
    } else if is_fuse(f) {
        1.14 * n as f64 + 1024.0
    } else {
        most_slots(n)
    };
    if flt.len as f64 > most {
        return Err(format!("{} of {} keys: {} fingerprints", NAMES[f], n, flt.len));
    }
    c.steps(1);
    c.state(&(f, n, flt.len));
    c.outcome(&flt.len);
    c.trace();
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let top = if th { 96 } else { 40 };
    pl.bound(format!("every number of records up to {} with 6 dimensions and every element size up to 96 bits (steps) for 15 plaintext sizes, index and keyword", top));
    pl.bound(format!("filters (mod-p and 9 membership filters) of every size up to {}, of sizes around every power of two and of steps of 7% up to 2^21 keys", if th { 20_000 } else { 3_000 }));
    pl.assume("slots per key are judged against the table in c22.rs (12 for one key to 1.145 from 2^20 keys), the promised asymptotic factor being 1.125");
    for kv in [false, true] {
        for p in 1..=15usize {
            if kv && checked_build() && p < 8 {
                continue;
            }
            pl.case(format!("shapes kv={} p={}", kv, p), move |c| {
                let es = [1usize, 2, 7, 8, 9, 15, 16, 17, 24, 30, 31, 32, 33, 40, 63, 64, 65, 96];
                for n in 1..=top {
                    for (k, e) in es.iter().enumerate() {
                        if kv && n > 24 && k % 3 != n % 3 {
                            continue;
                        }
                        let dim = [1usize, 2, 3, 7, 16, 33][(n + k) % 6];
                        shape(c, kv, k % 7, n, dim, *e, p)?;
                    }
                }
                c.sample(format!("queries of n words, answers of ceil(e/{}) words", p));
                Ok(())
            });
        }
    }
    for (n, dim, e, p) in [(257usize, 3usize, 70_000usize, 9usize), (70_000, 1, 8, 8), (1, 70_000, 8, 8), (300, 300, 300, 10), (1, 1, 2_000_000, 11), (3000, 2, 2, 1)] {
        pl.case(format!("large n={} dim={} e={} p={}", n, dim, e, p), move |c| {
            shape(c, false, 0, n, dim, e, p)?;
            if !(checked_build() && (p < 8 || n > 10_000)) {
                shape(c, true, 0, n, dim, e, p)?;
            }
            Ok(())
        });
    }
    let mut sizes: Vec<usize> = vec![];
    let mut x = 3000f64;
    while x < 2_100_000.0 {
        sizes.push(x as usize);
        x *= if th { 1.02 } else { 1.07 };
    }
    for k in 11..21 {
        sizes.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    sizes.sort();
    sizes.dedup();
    let dense = if th { 20_000 } else { 3_000 };
    for part in 0..8usize {
        pl.case(format!("mod-p sizes {}", part), move |c| {
            for n in (1..=dense).filter(|n| n % 8 == part) {
                modp(c, n)?;
            }
            Ok(())
        });
        for f in 0..9 {
            if is_fuse(f) {
                continue;
            }
            pl.case(format!("{} sizes {}", NAMES[f], part), move |c| {
                for n in (0..=dense).filter(|n| n % 8 == part) {
                    member(c, f, n)?;
                }
                Ok(())
            });
        }
    }
    for n in sizes {
        if checked_build() && n > 300_000 {
            continue;
        }
        pl.case(format!("size {}", n), move |c| {
            modp(c, n)?;
            for f in 0..9 {
                if bits(f) == 8 || n < 100_000 {
                    if !(is_fuse(f) && n < 100_000) {
                        member(c, f, n)?;
                    }
                }
            }
            Ok(())
        });
    }
}
