//! C12: unusable build input is rejected with an error.
//!
//! A reference validator decides from the input alone whether it is usable
//! and what is stored; the real constructors must agree on every input of
//! the enumerated defect space.
use super::c03::lookup_all;
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, KVDatabase, KeyValue};
use std::collections::HashSet;

/// The bytes of an element, if it is exactly `e` bits long.
fn element(s: &str, e: usize) -> Option<Vec<u8>> {
    let b = base64::decode(s).ok()?;
    if e == 0 || b.len() != e / 8 + (e % 8 != 0) as usize {
        return None;
    }
    if e % 8 != 0 && b[b.len() - 1] >> (e % 8) != 0 {
        return None;
    }
    Some(b)
}
fn encoding_ok(e: usize, p: usize) -> bool {
    e > 0 && (1..32).contains(&p)
}

/// Verdict on index input: `Some(stored)`, or `None` if it must be refused.
/// `Err(())`: elements beyond the declared rows are bad, not judged.
fn ref_index(el: &[String], m: usize, e: usize, p: usize) -> Result<Option<Vec<Vec<u8>>>, ()> {
    if !encoding_ok(e, p) || m == 0 || m > el.len() {
        return Ok(None);
    }
    let mut v = vec![];
    for s in &el[..m] {
        match element(s, e) {
            Some(b) => v.push(b),
            None => return Ok(None),
        }
    }
    if el[m..].iter().any(|s| element(s, e).is_none()) {
        return Err(());
    }
    Ok(Some(v))
}
fn ref_kv(
    keys: &[String],
    vals: &[String],
    e: usize,
    p: usize,
) -> Option<Vec<(String, Vec<u8>)>> {
    if !encoding_ok(e, p) || keys.is_empty() || keys.len() != vals.len() {
        return None;
    }
    let mut seen = HashSet::new();
    let mut out = vec![];
    for (k, v) in keys.iter().zip(vals) {
        if !seen.insert(k) {
            return None;
        }
        out.push((k.clone(), element(v, e)?));
    }
    Some(out)
}

fn judge_index(
    c: &mut Case,
    what: &str,
    got: Result<Result<Vec<String>, String>, String>,
    want: &Result<Option<Vec<Vec<u8>>>, ()>,
) -> R {
    c.steps(1);
    c.trace();
    match (got, want) {
        (Err(p), _) => Err(format!("{}: panic: {}", what, p)),
        (Ok(Ok(rows)), Ok(Some(w))) => {
            if rows != b64s(w) {
                return Err(format!("{}: serves {:?} instead of {:?}", what, trunc(&rows), trunc(&b64s(w))));
            }
            c.state(&(what, &rows));
            c.outcome(&true);
            Ok(())
        }
        (Ok(Ok(rows)), Ok(None)) => Err(format!("{}: accepted, serving {:?}", what, trunc(&rows))),
        (Ok(Err(e)), Ok(Some(_))) => Err(format!("{}: usable input refused: {}", what, e)),
        (Ok(_), _) => {
            c.state(&what);
            c.outcome(&false);
            Ok(())
        }
    }
}
fn rows_of(s: &Shard) -> Vec<String> {
    s.into_row_iter().collect()
}
/// All ways of building an index database from elements.
fn build_index(
    c: &mut Case,
    what: &str,
    el: &[String],
    m: usize,
    e: usize,
    p: usize,
    dir: Option<&str>,
) -> R {
    let want = ref_index(el, m, e, p);
    let r = no_panic(|| {
        IndexDatabase::new(el, m, e, p)
            .map(|d| (0..d.get_matrix_height()).map(|i| d.get_db_entry(i)).collect())
            .map_err(|e| e.to_string())
    });
    judge_index(c, &format!("IndexDatabase::new {}", what), r, &want)?;
    let r = no_panic(|| {
        Shard::from_base64_strings(el, 1, m, e, p)
            .map(|s| rows_of(&s))
            .map_err(|e| e.to_string())
    });
    judge_index(c, &format!("Shard::from_base64_strings {}", what), r, &want)?;
    if let Some(d) = dir {
        let f = format!("{}/db.json", d);
        std::fs::write(&f, serde_json::to_string(el).unwrap()).map_err(|e| format!("harness: {}", e))?;
        index_file(c, what, &f, m, e, p, &want)?;
    }
    Ok(())
}
fn index_file(
    c: &mut Case,
    what: &str,
    f: &str,
    m: usize,
    e: usize,
    p: usize,
    want: &Result<Option<Vec<Vec<u8>>>, ()>,
) -> R {
    let r = no_panic(|| {
        IndexDatabase::from_file(f, m, e, p)
            .map(|d| (0..d.get_matrix_height()).map(|i| d.get_db_entry(i)).collect())
            .map_err(|e| e.to_string())
    });
    judge_index(c, &format!("IndexDatabase::from_file {}", what), r, want)?;
    let r = no_panic(|| {
        Shard::from_json_file(f, 1, m, e, p)
            .map(|s| rows_of(&s))
            .map_err(|e| e.to_string())
    });
    judge_index(c, &format!("Shard::from_json_file {}", what), r, want)
}

/// Defective forms of an element.
fn bad_forms(good: &str, e: usize) -> Vec<String> {
    let b = base64::decode(good).unwrap();
    let mut v: Vec<String> = vec![];
    let mut push = |s: String| v.push(s);
    push(String::new());
    for cut in [1usize, 2, 7] {
        if cut <= b.len() {
            push(b64(&b[..b.len() - cut]));
        }
    }
    for add in [1usize, 2, 3, 8] {
        let mut x = b.clone();
        x.resize(b.len() + add, 0);
        push(b64(&x));
        let mut y = b.clone();
        y.resize(b.len() + add, 0xff);
        push(b64(&y));
        let mut z = vec![0u8; add];
        z.extend_from_slice(&b);
        push(b64(&z));
    }
    if e % 8 != 0 {
        for bit in e % 8..8 {
            let mut x = b.clone();
            let n = x.len() - 1;
            x[n] |= 1 << bit;
            push(b64(&x));
        }
    }
    // characters outside the alphabet, at every position
    for i in 0..good.len() {
        for ch in ['!', ' ', '\n', '-', '_', '\u{e9}', '\0', '='] {
            let mut s: Vec<char> = good.chars().collect();
            if s[i] != ch {
                s[i] = ch;
                push(s.iter().collect());
            }
        }
    }
    // padding dropped, doubled, misplaced
    push(good.trim_end_matches('=').to_string());
    push(format!("{}=", good));
    push(format!("={}", good));
    push(format!("{}A", good));
    push(format!(" {}", good));
    push(format!("{}\n", good));
    push("=".into());
    push("A".into());
    push("====".into());
    v.retain(|s| element(s, e).is_none());
    v.sort();
    v.dedup();
    v
}

fn index_elements(c: &mut Case, n: usize, e: usize, p: usize) -> R {
    let d = scratch("c12")?;
    let good = b64s(&elements(0, n, e));
    build_index(c, "valid", &good, n, e, p, Some(&d.path))?;
    let bad = bad_forms(&good[n / 2], e);
    for pos in 0..n {
        for (k, b) in bad.iter().enumerate() {
            let mut el = good.clone();
            el[pos] = b.clone();
            for m in [n, pos + 1, pos] {
                let dir = if k % 7 == pos % 7 { Some(d.path.as_str()) } else { None };
                build_index(
                    c,
                    &format!("n={} m={} e={} p={} element {} = {:?}", n, m, e, p, pos, b),
                    &el,
                    m,
                    e,
                    p,
                    dir,
                )?;
            }
            // a second one elsewhere must not cancel out: total length kept
            if n > 1 {
                let mut x = base64::decode(&good[pos]).unwrap();
                let mut y = base64::decode(&good[(pos + 1) % n]).unwrap();
                let moved = x.pop().unwrap();
                y.push(moved);
                let mut el = good.clone();
                el[pos] = b64(&x);
                el[(pos + 1) % n] = b64(&y);
                build_index(c, &format!("n={} e={} p={} byte moved from {}", n, e, p, pos), &el, n, e, p, None)?;
            }
        }
    }
    c.sample(format!("n={} e={} p={}: {} defective forms of an element at each position", n, e, p, bad.len()));
    Ok(())
}

const ODD: [usize; 30] = [
    0,
    1,
    2,
    3,
    7,
    8,
    9,
    15,
    16,
    17,
    31,
    32,
    33,
    63,
    64,
    65,
    127,
    128,
    255,
    256,
    1 << 16,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 8,
    1 << 40,
    1 << 62,
    usize::MAX / 2,
    usize::MAX - 7,
    usize::MAX,
];
fn index_numbers(c: &mut Case) -> R {
    let d = scratch("c12")?;
    for (n, eb) in [(1usize, 8usize), (3, 16), (2, 9), (4, 1)] {
        let el = b64s(&elements(1, n, eb));
        for &e in &ODD {
            for &p in &ODD {
                for m in [0, 1, n, n + 1, 2 * n, usize::MAX] {
                    if p < 8 && e > 1 << 20 {
                        // (still refused: the sizes differ)
                    }
                    let dir = if m == n && e < 70 { Some(d.path.as_str()) } else { None };
                    build_index(
                        c,
                        &format!("{} elements of {} bits as m={} e={} p={}", n, eb, m, e, p),
                        &el,
                        m,
                        e,
                        p,
                        dir,
                    )?;
                }
            }
        }
        for e in 0..eb + 20 {
            for p in 0..40 {
                build_index(c, &format!("{} elements of {} bits as e={} p={}", n, eb, e, p), &el, n, e, p, None)?;
            }
        }
        for &m in &ODD {
            build_index(c, &format!("{} elements, m={}", n, m), &el, m, eb, 8, Some(&d.path))?;
        }
        build_index(c, "no elements", &[], 0, eb, 8, Some(&d.path))?;
        build_index(c, "no elements, one row", &[], 1, eb, 8, Some(&d.path))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ keyword

fn kv_content(db: &KVDatabase, kvs: &[KeyValue], p: usize, c: &mut Case) -> R {
    lookup_all(c, db, kvs, p)
}
fn judge_kv(
    c: &mut Case,
    what: &str,
    got: Result<Result<KVDatabase, String>, String>,
    want: &Option<Vec<KeyValue>>,
    p: usize,
) -> R {
    c.steps(1);
    c.trace();
    match (got, want) {
        (Err(e), _) => Err(format!("{}: panic: {}", what, e)),
        (Ok(Ok(db)), Some(kvs)) => {
            c.outcome(&true);
            kv_content(&db, kvs, p, c).map_err(|e| format!("{}: {}", what, e))
        }
        (Ok(Ok(_)), None) => Err(format!("{}: accepted", what)),
        (Ok(Err(e)), Some(_)) => Err(format!("{}: usable input refused: {}", what, e)),
        (Ok(Err(_)), None) => {
            c.state(&what);
            c.outcome(&false);
            Ok(())
        }
    }
}
fn as_kvs(v: &[(String, Vec<u8>)], e: usize, p: usize) -> Result<Vec<KeyValue>, String> {
    v.iter()
        .map(|(k, b)| {
            Ok(KeyValue {
                key: sha256_into_u64_sized(k.as_bytes()).map_err(|e| format!("{:?}", e))?,
                value: digits(b, e, p),
            })
        })
        .collect()
}
fn build_kv(
    c: &mut Case,
    what: &str,
    keys: &[String],
    vals: &[String],
    m: usize,
    e: usize,
    p: usize,
    dir: Option<&str>,
) -> R {
    let want = match ref_kv(keys, vals, e, p) {
        Some(v) => {
            if p < 8 && checked_build() {
                return Ok(()); // documented debug assertion of the filter
            }
            Some(as_kvs(&v, e, p)?)
        }
        None => None,
    };
    let r = no_panic(|| KVDatabase::from_base64_strings(keys, vals, m, e, p).map_err(|e| e.to_string()));
    judge_kv(c, &format!("KVDatabase::from_base64_strings {}", what), r, &want, p)?;
    let r = no_panic(|| {
        KVShard::from_base64_strings(keys, vals, 1, m, e, p)
            .map(|s| s.get_db().clone())
            .map_err(|e| e.to_string())
    });
    judge_kv(c, &format!("KVShard::from_base64_strings {}", what), r, &want, p)?;
    if keys.len() == vals.len() {
        if let Some(d) = dir {
            let f = format!("{}/kv.json", d);
            std::fs::write(&f, kv_json(keys, vals)).map_err(|e| format!("harness: {}", e))?;
            kv_file(c, what, &f, m, e, p, &want)?;
        }
    }
    Ok(())
}
fn kv_json(keys: &[String], vals: &[String]) -> String {
    let v: Vec<serde_json::Value> = keys
        .iter()
        .zip(vals)
        .map(|(k, v)| serde_json::json!({"key": k, "value": v}))
        .collect();
    serde_json::to_string(&v).unwrap()
}
fn kv_file(c: &mut Case, what: &str, f: &str, m: usize, e: usize, p: usize, want: &Option<Vec<KeyValue>>) -> R {
    let r = no_panic(|| {
        KVShard::from_json_file(f, 1, m, e, p)
            .map(|s| s.get_db().clone())
            .map_err(|e| e.to_string())
    });
    judge_kv(c, &format!("KVShard::from_json_file {}", what), r, want, p)
}
fn kstr(n: usize) -> Vec<String> {
    (0..n)
        .map(|i| match i {
            0 => "key".to_string(),
            1 => String::new(),
            2 => "k\u{e9}y \u{1f511}".to_string(),
            3 => "KEY".to_string(),
            _ => format!("key{}", i),
        })
        .collect()
}
fn kv_strings(c: &mut Case, n: usize, e: usize, p: usize) -> R {
    let d = scratch("c12")?;
    let keys = kstr(n);
    let vals = b64s(&elements(0, n, e));
    build_kv(c, "valid", &keys, &vals, n, e, p, Some(&d.path))?;
    let bad = bad_forms(&vals[n / 2], e);
    for pos in 0..n {
        for (k, b) in bad.iter().enumerate() {
            let mut v = vals.clone();
            v[pos] = b.clone();
            let dir = if k % 7 == pos % 7 { Some(d.path.as_str()) } else { None };
            build_kv(c, &format!("n={} e={} p={} value {} = {:?}", n, e, p, pos, b), &keys, &v, n, e, p, dir)?;
        }
        for other in 0..n {
            if other != pos {
                let mut k = keys.clone();
                k[pos] = k[other].clone();
                for same in [false, true] {
                    let mut v = vals.clone();
                    if same {
                        v[pos] = v[other].clone();
                    }
                    build_kv(c, &format!("n={} e={} p={} keys {} and {} equal", n, e, p, pos, other), &k, &v, n, e, p, Some(&d.path))?;
                }
            }
        }
    }
    // numbers of keys and values
    for a in 0..=n {
        for b in 0..=n {
            for m in [0usize, a, b, n] {
                build_kv(c, &format!("{} keys and {} values m={}", a, b, m), &keys[..a], &vals[..b], m, e, p, Some(&d.path))?;
            }
        }
    }
    // the single pair constructor
    for b in bad.iter().chain([&vals[0]]) {
        let want = element(b, e).map(|b| digits(&b, e, p));
        match no_panic(|| KeyValue::from_base64_strings("k", b, e, p).map_err(|e| e.to_string())) {
            Err(x) => return Err(format!("KeyValue {:?}: panic: {}", b, x)),
            Ok(Ok(kv)) if want.as_ref() == Some(&kv.value) => {}
            Ok(Err(_)) if want.is_none() => {}
            Ok(r) => return Err(format!("KeyValue {:?} e={} p={}: {:?}, expected {:?}", b, e, p, r, want)),
        }
        c.steps(1);
        c.trace();
    }
    c.sample(format!("n={} e={} p={}: {} defective values at each position, all pairs of equal keys", n, e, p, bad.len()));
    Ok(())
}
fn kv_numbers(c: &mut Case) -> R {
    for (n, eb) in [(1usize, 8usize), (3, 16), (2, 9)] {
        let keys = kstr(n);
        let vals = b64s(&elements(1, n, eb));
        for &e in &ODD {
            for &p in &ODD {
                build_kv(c, &format!("{} values of {} bits as e={} p={}", n, eb, e, p), &keys, &vals, n, e, p, None)?;
                let want = if encoding_ok(e, p) { element(&vals[0], e) } else { None };
                match no_panic(|| KeyValue::from_base64_strings("k", &vals[0], e, p).map_err(|e| e.to_string())) {
                    Err(x) => return Err(format!("KeyValue e={} p={}: panic: {}", e, p, x)),
                    Ok(r) => {
                        if r.is_ok() != want.is_some() {
                            return Err(format!("KeyValue of {} bits as e={} p={}: {:?}", eb, e, p, r));
                        }
                    }
                }
                c.steps(1);
            }
        }
    }
    Ok(())
}
/// Ready-made pairs with every number of digits and digits of every size.
fn kv_pairs(c: &mut Case, n: usize, e: usize, p: usize) -> R {
    let w = width(e, p);
    let keys = keyset(0, n);
    let (good, _) = kvs_of(&keys, 0, e, p);
    let run = |c: &mut Case, what: String, kvs: &[KeyValue], ok: bool, e: usize, p: usize| -> R {
        let want = if ok { Some(kvs.to_vec()) } else { None };
        let r = no_panic(|| KVDatabase::new(kvs, kvs.len(), e, p).map_err(|e| e.to_string()));
        judge_kv(c, &format!("KVDatabase::new {}", what), r, &want, p)?;
        let r = no_panic(|| {
            KVShard::new(kvs, 1, kvs.len(), e, p)
                .map(|s| s.get_db().clone())
                .map_err(|e| e.to_string())
        });
        judge_kv(c, &format!("KVShard::new {}", what), r, &want, p)
    };
    run(c, format!("valid n={} e={} p={}", n, e, p), &good, true, e, p)?;
    run(c, "no pairs".into(), &[], false, e, p)?;
    for pos in 0..n {
        for len in 0..=w + 3 {
            if len == w {
                continue;
            }
            let mut k = good.clone();
            k[pos].value.resize(len, 0);
            run(c, format!("n={} e={} p={}: pair {} of {} digits", n, e, p, pos, len), &k, false, e, p)?;
            // and its neighbour the other way
            if n > 1 {
                let o = (pos + 1) % n;
                k[o].value.resize((2 * w).saturating_sub(len), 0);
                run(c, format!("n={} e={} p={}: pairs {} and next of {} and {} digits", n, e, p, pos, len, k[o].value.len()), &k, false, e, p)?;
            }
        }
        for dg in 0..w {
            for v in [1u32 << p, (1u32 << p) + 1, u32::MAX, 1 << 31, u32::MAX << p] {
                let mut k = good.clone();
                k[pos].value[dg] = v;
                run(c, format!("n={} e={} p={}: pair {} digit {} = {:#x}", n, e, p, pos, dg, v), &k, false, e, p)?;
            }
            let mut k = good.clone();
            k[pos].value[dg] = if dg + 1 == w && e % p != 0 { (1u32 << (e % p)) - 1 } else { (1u32 << p) - 1 };
            run(c, format!("n={} e={} p={}: pair {} digit {} maximal", n, e, p, pos, dg), &k, true, e, p)?;
        }
        for other in 0..n {
            if other != pos {
                let mut k = good.clone();
                k[pos].key = k[other].key;
                run(c, format!("n={}: keys {} and {} equal", n, pos, other), &k, false, e, p)?;
                k[pos].value = k[other].value.clone();
                run(c, format!("n={}: pairs {} and {} equal", n, pos, other), &k, false, e, p)?;
                // equal in three of four words is distinct
                for wd in 0..4 {
                    let mut k = good.clone();
                    k[pos].key = k[other].key;
                    k[pos].key[wd] ^= 1 << (7 * wd + pos);
                    run(c, format!("n={}: keys {} and {} differ in word {}", n, pos, other, wd), &k, true, e, p)?;
                }
            }
        }
    }
    for &ee in &ODD {
        for &pp in &ODD {
            let ok = encoding_ok(ee, pp)
                && ee / pp + (ee % pp != 0) as usize == w
                && good.iter().all(|k| k.value.iter().all(|v| v >> pp == 0));
            if ok {
                continue; // other readings of the same digits: not judged here
            }
            run(c, format!("{} digits of {} bits as e={} p={}", w, p, ee, pp), &good, false, ee, pp)?;
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- files

/// Every truncation and every single-byte mutation of a small file, judged by
/// parsing the bytes independently.
fn files(c: &mut Case, kv: bool) -> R {
    let d = scratch("c12")?;
    let (n, e, p) = (3usize, 20usize, 9usize);
    let el = b64s(&elements(0, n, e));
    let keys = vec!["a".to_string(), "b".to_string(), "\u{e9}\\".to_string()];
    let text = if kv { kv_json(&keys, &el) } else { serde_json::to_string(&el).unwrap() };
    let b = text.as_bytes();
    let f = format!("{}/f.json", d.path);
    let run = |c: &mut Case, what: &str, bytes: &[u8]| -> R {
        std::fs::write(&f, bytes).map_err(|e| format!("harness: {}", e))?;
        let js: Option<serde_json::Value> =
            std::str::from_utf8(bytes).ok().and_then(|s| serde_json::from_str(s).ok());
        if kv {
            let mut ks = vec![];
            let mut vs = vec![];
            let mut ok = true;
            match js.as_ref().and_then(|j| j.as_array()) {
                None => ok = false,
                Some(a) => {
                    for x in a {
                        // pairs may also be written as two-element arrays
                        let (k, v) = if let Some(t) = x.as_array() {
                            (t.get(0).and_then(|s| s.as_str()), t.get(1).and_then(|s| s.as_str()))
                        } else {
                            (x.get("key").and_then(|s| s.as_str()), x.get("value").and_then(|s| s.as_str()))
                        };
                        match (k, v) {
                            (Some(k), Some(v)) => {
                                ks.push(k.to_string());
                                vs.push(v.to_string());
                            }
                            _ => ok = false,
                        }
                    }
                }
            }
            let want = if ok {
                match ref_kv(&ks, &vs, e, p) {
                    Some(v) => Some(as_kvs(&v, e, p)?),
                    None => None,
                }
            } else {
                None
            };
            kv_file(c, what, &f, n, e, p, &want)
        } else {
            let v: Option<Vec<String>> = js.and_then(|j| serde_json::from_value(j).ok());
            let want = match v {
                Some(v) => ref_index(&v, n, e, p),
                None => Ok(None),
            };
            index_file(c, what, &f, n, e, p, &want)
        }
    };
    for k in 0..=b.len() {
        run(c, &format!("cut to {} bytes", k), &b[..k])?;
        run(c, &format!("the last {} bytes", k), &b[b.len() - k..])?;
    }
    for k in 0..b.len() {
        for x in [0u8, b'"', b',', b']', b'[', b'}', b'A', b'0', b'\\', b'=', b' ', b'\n', 0x80, 0xff] {
            let mut y = b.to_vec();
            y[k] = x;
            run(c, &format!("byte {} set to {:#x}", k, x), &y)?;
            let mut y = b.to_vec();
            y.insert(k, x);
            run(c, &format!("byte {:#x} inserted at {}", x, k), &y)?;
        }
        let mut y = b.to_vec();
        y.remove(k);
        run(c, &format!("byte {} removed", k), &y)?;
    }
    for t in [
        "", " ", "null", "true", "0", "\"\"", "{}", "[]", "[[]]", "[null]", "[0]", "[{}]", "[\"\"]", "[\"\",\"\",\"\"]",
        "{\"a\":1}", "[1,2,3]", "[null,null,null]", "\u{feff}[]", "[[\"a\"],[\"b\"],[\"c\"]]",
        "[{\"key\":\"a\"}]", "[{\"value\":\"AAAA\"}]", "[{\"key\":1,\"value\":\"AAAA\"}]",
        "[{\"key\":\"a\",\"value\":null}]", "[{\"key\":null,\"value\":\"AAAA\"}]", "[{\"Key\":\"a\",\"value\":\"AAAA\"}]",
    ] {
        run(c, t, t.as_bytes())?;
        run(c, &format!("{} twice", t), format!("{}{}", t, t).as_bytes())?;
        run(c, &format!("trailing {}", t), format!("{}{}", text, t).as_bytes())?;
        run(c, &format!("leading {}", t), format!("{}{}", t, text).as_bytes())?;
    }
    // an element of the wrong type at each position
    if !kv {
        for pos in 0..n {
            for bad in ["null", "7", "[]", "{}", "true"] {
                let parts: Vec<String> =
                    (0..n).map(|i| if i == pos { bad.to_string() } else { format!("\"{}\"", el[i]) }).collect();
                run(c, &format!("{} at {}", bad, pos), format!("[{}]", parts.join(",")).as_bytes())?;
            }
        }
    }
    // paths
    std::fs::write(&f, b).map_err(|e| format!("harness: {}", e))?;
    for path in [
        format!("{}/missing.json", d.path),
        format!("{}/missing/f.json", d.path),
        d.path.clone(),
        format!("{}/below", f),
        String::new(),
        format!("{}\0", f),
        format!("{}/{}", d.path, "n".repeat(300)),
    ] {
        if kv {
            kv_file(c, &path, &path, n, e, p, &None)?;
        } else {
            index_file(c, &path, &path, n, e, p, &Ok(None))?;
        }
    }
    Ok(())
}

/// One defect among more than 2^16 elements or in one of more than 2^16 bits.
fn scale(c: &mut Case) -> R {
    let d = scratch("c12s")?;
    let (n, e, p) = (70_000usize, 19usize, 9usize);
    let good = b64s(&elements(0, n, e));
    build_index(c, "70000 valid elements", &good, n, e, p, Some(&d.path))?;
    let b0 = elements(0, 1, e).remove(0);
    let mut high = b0.clone();
    high[2] |= 0x80;
    let bad = [b64(&b0[..2]), b64(&[b0[0], b0[1], 0, 0]), b64(&high), "A!==".to_string()];
    for pos in [0usize, 255, 256, 4464, 32_768, 65_535, 65_536, 69_999] {
        for b in &bad {
            let mut el = good.clone();
            el[pos] = b.clone();
            let r = no_panic(|| IndexDatabase::new(&el, n, e, p).is_ok())?;
            if r {
                return Err(format!("element {} of {} = {:?} ({} bits) is accepted", pos, n, b, e));
            }
            c.steps(1);
            c.state(&(pos, b));
            c.trace();
        }
    }
    for m in [n + 1, n + 256, n + 65_536, n + (1 << 32)] {
        if no_panic(|| IndexDatabase::new(&good, m, e, p).is_ok())? {
            return Err(format!("{} elements are accepted as {} rows", n, m));
        }
        c.steps(1);
    }
    // keys that are equal far apart
    let keys: Vec<String> = (0..n).map(|i| format!("key{}", i)).collect();
    for (i, j) in [(0usize, n - 1), (1, 65_537), (255, 511), (65_535, 65_536), (n - 2, n - 1)] {
        let mut k = keys.clone();
        k[j] = k[i].clone();
        match no_panic(|| KVDatabase::from_base64_strings(&k, &good, n, e, p).is_ok()) {
            Ok(false) => {}
            x => return Err(format!("keys {} and {} of {} are equal: {:?}", i, j, n, x)),
        }
        let mut v = good.clone();
        v[j] = bad[2].clone();
        match no_panic(|| KVDatabase::from_base64_strings(&keys, &v, n, e, p).is_ok()) {
            Ok(false) => {}
            x => return Err(format!("value {} of {} has bits beyond its size: {:?}", j, n, x)),
        }
        c.steps(2);
        c.state(&(i, j));
        c.trace();
    }
    // long elements: sizes that agree in the low bits
    for e in [8 * 70_000usize, 8 * 65_536, 8 * 256, 8 * 300, 8 * 65_536 - 5, (1 << 24) + 8] {
        let el = content(0, 1, e);
        let mut forms: Vec<Vec<u8>> = vec![];
        for cut in [1usize, 256, 65_536] {
            if cut <= el.len() {
                forms.push(el[..el.len() - cut].to_vec());
            }
            let mut x = el.clone();
            x.resize(el.len() + cut, 0);
            forms.push(x);
        }
        if e % 8 != 0 {
            let mut x = el.clone();
            *x.last_mut().unwrap() |= 0x80;
            forms.push(x);
        }
        for x in &forms {
            for p in [9usize, 31] {
                let s = b64(x);
                match no_panic(|| IndexDatabase::new(&[s.clone()], 1, e, p).is_ok()) {
                    Ok(false) => {}
                    r => return Err(format!("element of {} bytes for {} bits: {:?}", x.len(), e, r)),
                }
                match no_panic(|| KeyValue::from_base64_strings("k", &s, e, p).is_ok()) {
                    Ok(false) => {}
                    r => return Err(format!("value of {} bytes for {} bits: {:?}", x.len(), e, r)),
                }
                c.steps(2);
            }
        }
        // a pair with 2^8 or 2^16 digits too many
        let p = 9;
        let w = width(e, p);
        if w < 1 << 18 {
            for add in [256usize, 65_536] {
                let kv = KeyValue { key: [1, 2, 3, 4], value: vec![0; w + add] };
                match no_panic(|| KVDatabase::new(&[kv.clone()], 1, e, p).is_ok()) {
                    Ok(false) => {}
                    r => return Err(format!("{} digits for {} bits: {:?}", w + add, e, r)),
                }
                c.steps(1);
            }
        }
        c.state(&e);
        c.trace();
    }
    c.outcome(&"refused");
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("index and keyword input with every defect of an enumerated list (wrong length, bits beyond the size, bad base64 characters and padding at every place) at every position, through every constructor and loader");
    pl.bound("all pairs of equal keys; every number of keys and values up to 6; pairs with every number of digits up to 3 too many, digits beyond the plaintext space at every place");
    pl.bound("30 x 30 odd element sizes and plaintext bits (0 to 2^64-1), odd declared row counts");
    pl.bound("every truncation, deletion, and 14 substitutions and insertions at every byte of a file; wrong JSON shapes; 7 unreadable paths");
    pl.assume("running as root, a file cannot be unreadable for lack of permission");
    pl.assume("elements beyond the declared rows of an index database are not served and may be anything");
    pl.bound("scale: 70000 elements or pairs with one defect at boundary positions; elements of up to 2^24 bits that are 1, 2^8 or 2^16 bytes off");
    pl.case("scale", scale);
    pl.case("index numbers", index_numbers);
    pl.case("kv numbers", kv_numbers);
    pl.case("index files", |c| files(c, false));
    pl.case("kv files", |c| files(c, true));
    let shapes: Vec<(usize, usize, usize)> = if th {
        let mut v = vec![];
        for n in [1usize, 2, 3, 5, 8, 13] {
            for e in (1usize..=40).chain([63, 64, 65, 100, 256]) {
                for p in [1usize, 2, 5, 7, 8, 9, 10, 13, 16, 24, 31] {
                    v.push((n, e, p));
                }
            }
        }
        v
    } else {
        let mut v = vec![(8, 100, 12)];
        for n in [1usize, 2, 3, 5] {
            for e in [1usize, 3, 7, 8, 9, 16, 17, 24, 33, 64] {
                for p in [1usize, 5, 8, 9, 10, 16, 31] {
                    v.push((n, e, p));
                }
            }
        }
        v
    };
    for (n, e, p) in shapes {
        pl.case(format!("index n={} e={} p={}", n, e, p), move |c| index_elements(c, n, e, p));
        if p >= 8 || !checked_build() {
            pl.case(format!("kv n={} e={} p={}", n, e, p), move |c| kv_strings(c, n, e, p));
            pl.case(format!("pairs n={} e={} p={}", n, e, p), move |c| kv_pairs(c, n, e, p));
        }
    }
}
