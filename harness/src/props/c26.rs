//! C26: a database is determined by its content, not by how it is supplied.
use super::c03::lookup_all;
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, KVDatabase, KeyValue};

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
/// Ways of spelling a JSON string.
const ESC: usize = 5;
fn quoted(x: &str, way: usize, lead: usize) -> String {
    let mut o = String::from("\"");
    for (i, ch) in x.chars().enumerate() {
        let mut u = [0u16; 2];
        let esc = match way {
            0 => false,
            1 | 2 => true,
            3 => i % 2 == lead % 2,
            _ => !ch.is_ascii(),
        };
        if esc || (ch as u32) < 32 || ch == '"' || ch == '\\' {
            for w in ch.encode_utf16(&mut u) {
                o += &if way == 2 { format!("\\u{:04X}", w) } else { format!("\\u{:04x}", w) };
            }
        } else if ch == '/' && way == 4 {
            o += "\\/";
        } else {
            o.push(ch);
        }
    }
    o + "\""
}
const GAPS: [&str; 5] = ["", " ", "\n", "\r\n\t", "   \n\n   \t "];
fn list(items: &[String], gap: &str) -> String {
    format!("{g}[{g}{}{g}]{g}", items.join(&format!("{g},{g}", g = gap)), g = gap)
}
fn pair(k: &str, v: &str, way: usize, gap: &str, swap: bool) -> String {
    let (kk, vv) = (quoted("key", way % 3, 0), quoted("value", way % 3, 0));
    let (k, v) = (quoted(k, way, 0), quoted(v, way, 1));
    let f = |n: &str, x: &str| format!("{n}{g}:{g}{x}", n = n, x = x, g = gap);
    let (a, b) = if swap { (f(&vv, &v), f(&kk, &k)) } else { (f(&kk, &k), f(&vv, &v)) };
    format!("{{{g}{a}{g},{g}{b}{g}}}", a = a, b = b, g = gap)
}
fn files_in(d: &str) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d)
        .map(|r| r.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}
/// Fixed draws: what is built is a function of its input. All are alike, as
/// the generator of a thread takes draws of the same length at times of its own.
fn seeds(x: u64) -> Vec<[u8; 32]> {
    let mut b = [0u8; 32];
    for (j, y) in b.iter_mut().enumerate() {
        *y = sm(x * 4096 + j as u64) as u8;
    }
    vec![b; 64]
}
fn drawn<T>(x: u64, f: impl FnOnce() -> T) -> T {
    let e = Env::install(&[], &seeds(x));
    e.set_words(&[], Some(7));
    f()
}

struct Want {
    /// Present if what is built is reproducible.
    shard: Option<Vec<u8>>,
    rows: Vec<String>,
}
fn index_is(c: &mut Case, what: &str, w: &Want, r: Result<Shard, String>) -> R {
    c.steps(1);
    c.trace();
    let sh = r.map_err(|e| format!("{}: {}", what, e))?;
    let rows: Vec<String> = sh.into_row_iter().collect();
    if rows != w.rows {
        return Err(format!("{}: rows {:?} instead of {:?}", what, trunc(&rows), trunc(&w.rows)));
    }
    if w.shard.is_some() && Some(bincode::serialize(&sh).map_err(s)?) != w.shard {
        return Err(format!("{}: another shard, although the rows and the draws are the same", what));
    }
    c.state(&what);
    Ok(())
}
fn index(c: &mut Case, n: usize, e: usize, p: usize, dim: usize, kind: usize) -> R {
    let sc = scratch("same")?;
    let f = format!("{}/db.json", sc.path);
    let el = b64s(&elements(kind, n + 3, e));
    for m in 1..=n {
        let x = (n * 100 + m) as u64;
        let sh = drawn(x, || Shard::from_base64_strings(&el[..m], dim, m, e, p)).map_err(s)?;
        let again = drawn(x, || Shard::from_base64_strings(&el[..m], dim, m, e, p)).map_err(s)?;
        let (b, b2) = (bincode::serialize(&sh).map_err(s)?, bincode::serialize(&again).map_err(s)?);
        let w = Want { shard: (b == b2).then_some(b), rows: el[..m].to_vec() };
        let what = |t: &str| format!("n={} m={} e={} p={} dim={} content {}: {}", n, m, e, p, dim, kind, t);
        index_is(c, &what("the rows alone"), &w, Ok(sh))?;
        // any number of rows beyond the declared ones
        for more in 1..=3 {
            let r = drawn(x, || Shard::from_base64_strings(&el[..m + more], dim, m, e, p).map_err(s));
            index_is(c, &what(&format!("{} rows more", more)), &w, r)?;
        }
        for (g, gap) in GAPS.iter().enumerate() {
            for way in 0..ESC {
                for more in [0, 2] {
                    let text = list(&el[..m + more].iter().map(|x| quoted(x, way, g)).collect::<Vec<_>>(), gap);
                    std::fs::write(&f, &text).map_err(|e| format!("harness: {}", e))?;
                    let t = what(&format!("file, gaps {} escapes {} rows more {}", g, way, more));
                    let r = drawn(x, || Shard::from_json_file(&f, dim, m, e, p).map_err(s));
                    index_is(c, &t, &w, r)?;
                    let d = IndexDatabase::from_file(&f, m, e, p).map_err(|e| format!("{}: {}", t, e))?;
                    let rows: Vec<String> = (0..m).map(|i| d.get_db_entry(i)).collect();
                    if rows != w.rows || (d.get_matrix_height(), d.get_elem_size(), d.get_plaintext_bits()) != (m, e, p) {
                        return Err(format!("{}: the database from the file has other rows", t));
                    }
                    if std::fs::read(&f).map_err(s)? != text.as_bytes() || files_in(&sc.path) != ["db.json"] {
                        return Err(format!("{}: loading alters the file or its directory", t));
                    }
                }
            }
        }
    }
    Ok(())
}

/// The names of a keyword database and their spelling classes.
fn names(fam: usize, n: usize) -> Vec<String> {
    (0..n)
        .map(|i| match fam {
            0 => format!("key {}", i),
            1 => format!("/é{}\u{1F600}\"\\{}", i, "\u{0}\n"),
            2 => "x".repeat(i),
            3 => " ".repeat(i % 4) + &"\u{e9}e\u{301}".repeat(1 + i / 4),
            4 => format!("{}\u{10FFFF}\u{2028}", i),
            _ => base64::encode([i as u8; 32]),
        })
        .collect()
}
fn kv(c: &mut Case, fam: usize, n: usize, e: usize, p: usize) -> R {
    use sha2::{Digest, Sha256};
    let sc = scratch("same")?;
    let f = format!("{}/db.json", sc.path);
    let ns = names(fam, n);
    let raw = elements(fam, n, e);
    let vals = b64s(&raw);
    let kvs: Vec<KeyValue> = ns
        .iter()
        .zip(&raw)
        .map(|(k, v)| {
            let d = Sha256::digest(k.as_bytes());
            let mut key = [0u64; 4];
            for (i, w) in key.iter_mut().enumerate() {
                *w = u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap());
            }
            KeyValue { key, value: digits(v, e, p) }
        })
        .collect();
    let head = format!("names {} n={} e={} p={}", fam, n, e, p);
    // What must not depend on the way it is supplied.
    fn face(b: &KVShard) -> Result<Vec<u8>, String> {
        let bp = b.get_base_params();
        bincode::serialize(&(
            bp.get_public_seed(),
            bp.get_filter_params(),
            (bp.get_dim(), bp.get_total_records(), bp.get_elem_size(), bp.get_plaintext_bits()),
            (b.get_db().get_matrix_height(), b.get_db().get_row_width_self(), b.get_db().get_elem_size(), b.get_db().get_plaintext_bits()),
            b.get_db().get_filter_params(),
        ))
        .map_err(s)
    }
    // draws with which what is built is reproducible: the filter is found
    // before the tape ends, and nothing else is drawn
    let (mut x, mut want) = (9u64, None);
    for t in 9..30u64 {
        let mut f = vec![];
        for _ in 0..2 {
            let b = drawn(t, || KVShard::new(&kvs, 2, n, e, p)).map_err(|y| format!("{}: {}", head, y))?;
            f.push(face(&b)?);
        }
        if f[0] == f[1] {
            (x, want) = (t, f.pop());
            break;
        }
    }
    let mut judge = |c: &mut Case, what: &str, same_order: bool, r: Result<KVShard, String>| -> R {
        c.steps(1);
        c.trace();
        let sh = r.map_err(|y| format!("{}: {}: {}", head, what, y))?;
        lookup_all(c, sh.get_db(), &kvs, p).map_err(|y| format!("{}: {}: {}", head, what, y))?;
        if same_order && want.is_some() && Some(face(&sh)?) != want {
            return Err(format!("{}: {}: other parameters, although the pairs and the draws are the same", head, what));
        }
        c.state(&(&head, what));
        Ok(())
    };
    for m in [0, 1, n, n + 1, 1 << 20, usize::MAX] {
        let t = format!("declared rows {}", m);
        judge(c, &t, true, drawn(x, || KVShard::new(&kvs, 2, m, e, p).map_err(s)))?;
        judge(c, &t, true, drawn(x, || KVShard::from_base64_strings(&ns, &vals, 2, m, e, p).map_err(s)))?;
    }
    let made: Vec<KeyValue> = ns
        .iter()
        .zip(&vals)
        .map(|(k, v)| KeyValue::from_base64_strings(k, v, e, p).map_err(s))
        .collect::<Result<_, _>>()
        .map_err(|x| format!("{}: {}", head, x))?;
    for (a, b) in made.iter().zip(&kvs) {
        c.steps(1);
        if (a.key, &a.value) != (b.key, &b.value) {
            return Err(format!("{}: pair {:x?} {:?} instead of {:x?} {:?}", head, a.key, trunc(&a.value), b.key, trunc(&b.value)));
        }
    }
    judge(c, "pairs made from strings", true, drawn(x, || KVShard::new(&made, 2, n, e, p).map_err(s)))?;
    // orders of the pairs: all of them for few, rotations and reversal
    let mut orders: Vec<Vec<usize>> = vec![];
    if n <= 4 {
        fn go(v: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
            if v.len() == n {
                out.push(v.clone());
            }
            for i in 0..n {
                if !v.contains(&i) {
                    v.push(i);
                    go(v, n, out);
                    v.pop();
                }
            }
        }
        go(&mut vec![], n, &mut orders);
    } else {
        for r in [1, n / 2, n - 1] {
            orders.push((0..n).map(|i| (i + r) % n).collect());
        }
        orders.push((0..n).rev().collect());
    }
    for o in &orders {
        let sorted: Vec<KeyValue> = o.iter().map(|&i| kvs[i].clone()).collect();
        judge(c, &format!("order {:?}", trunc(o)), false, drawn(x, || KVShard::new(&sorted, 2, n, e, p).map_err(s)))?;
        let d = drawn(x, || KVDatabase::new(&sorted, n, e, p)).map_err(|x| format!("{}: {}", head, x))?;
        lookup_all(c, &d, &kvs, p).map_err(|x| format!("{}: order {:?}: {}", head, trunc(o), x))?;
    }
    for (g, gap) in GAPS.iter().enumerate() {
        for way in 0..ESC {
            for swap in [0, 1, 2] {
                let items: Vec<String> = ns
                    .iter()
                    .zip(&vals)
                    .enumerate()
                    .map(|(i, (k, v))| pair(k, v, way, gap, swap == 1 || swap == 2 && i % 2 == 1))
                    .collect();
                let text = list(&items, gap);
                std::fs::write(&f, &text).map_err(|e| format!("harness: {}", e))?;
                let t = format!("file, gaps {} escapes {} order of fields {}", g, way, swap);
                judge(c, &t, true, drawn(x, || KVShard::from_json_file(&f, 2, n, e, p).map_err(s)))?;
                if std::fs::read(&f).map_err(s)? != text.as_bytes() || files_in(&sc.path) != ["db.json"] {
                    return Err(format!("{}: {}: loading alters the file or its directory", head, t));
                }
            }
        }
    }
    Ok(())
}
/// Files of a size, with a character of several bytes at every place around
/// it (readers work in blocks).
fn blocks(c: &mut Case, at: usize) -> R {
    let sc = scratch("same")?;
    let f = format!("{}/db.json", sc.path);
    for off in 0..6usize {
        let pad = " ".repeat((at + off).saturating_sub(20));
        let k = "\u{1F600}é".repeat(4);
        let v = base64::encode([off as u8 + 1, 0xff]);
        std::fs::write(&f, format!("{}[{{\"key\": \"{}\", \"value\": \"{}\"}}]", pad, k, v)).map_err(|e| format!("harness: {}", e))?;
        c.steps(1);
        c.trace();
        let sh = drawn(3, || KVShard::from_json_file(&f, 1, 1, 16, 8)).map_err(|e| format!("name at byte {}: {}", at + off, e))?;
        let one = KeyValue { key: sha256_into_u64_sized(k.as_bytes()).map_err(s)?, value: vec![off as u32 + 1, 0xff] };
        lookup_all(c, sh.get_db(), &[one], 8).map_err(|e| format!("name at byte {}: {}", at + off, e))?;
        let el = b64s(&elements(0, 3, 64));
        std::fs::write(&f, format!("[\"{}\",{}\"{}\", \"{}\"]", el[0], pad, el[1], el[2])).map_err(|e| format!("harness: {}", e))?;
        let rows: Vec<String> = Shard::from_json_file(&f, 1, 3, 64, 8).map_err(|e| format!("gap of {}: {}", pad.len(), e))?.into_row_iter().collect();
        if rows != el {
            return Err(format!("gap of {} blanks: rows {:?} instead of {:?}", pad.len(), rows, el));
        }
        c.state(&(at, off));
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("index: every number of declared rows up to 6 with up to 3 rows more, through strings and files in 5 layouts x 5 spellings, 6 shapes x 4 contents");
    pl.bound("keyword: 6 families of names x 1 to 40 pairs, ready-made, as strings and as files in 5 layouts x 5 spellings x 3 orders of fields; 6 declared row counts; all orders of up to 4 pairs, 4 orders of more");
    pl.bound("names and gaps across every power of two of the file from 2^9 to 2^20");
    pl.assume("with the same draws the same content gives the same index shard; unused slots of a keyword database are not compared");
    for (n, e, p, dim) in [(1, 8, 8, 1), (2, 13, 5, 2), (3, 64, 10, 3), (4, 1, 1, 2), (6, 40, 16, 4), (5, 33, 31, 1)] {
        for kind in 0..if th { KINDS } else { 4 } {
            pl.case(format!("index n={} e={} p={} content {}", n, e, p, kind), move |c| index(c, n, e, p, dim, kind));
        }
    }
    let shapes: &[(usize, usize)] = if th { &[(8, 8), (13, 9), (64, 10), (100, 16), (33, 31)] } else { &[(8, 8), (13, 9), (64, 10)] };
    for fam in 0..6 {
        for n in [1usize, 2, 3, 4, 5, 12, 40] {
            for &(e, p) in shapes {
                pl.case(format!("keyword names {} n={} e={} p={}", fam, n, e, p), move |c| kv(c, fam, n, e, p));
            }
        }
    }
    for k in 9..=20u32 {
        pl.case(format!("blocks 2^{}", k), move |c| blocks(c, 1 << k));
    }
}
