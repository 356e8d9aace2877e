//! C09: database content is preserved exactly by the digit encoding.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, KVDatabase, KeyValue};
use sha2::{Digest, Sha256};

/// Little-endian join of digits: the inverse of `digits`, masked like the
/// database does (a digit contributes p bits, the last one the rest).
fn join(row: &[u32], e: usize, p: usize) -> Vec<u8> {
    let mut out = vec![0u8; nbytes(e)];
    for (j, d) in row.iter().enumerate() {
        for k in 0..p {
            let i = j * p + k;
            if i < e && (d >> k) & 1 == 1 {
                out[i / 8] |= 1 << (i % 8);
            }
        }
    }
    out
}

fn index_db(c: &mut Case, el: &[Vec<u8>], e: usize, p: usize, deep: bool) -> R {
    let m = el.len();
    let strs = b64s(el);
    let db = IndexDatabase::new(&strs, m, e, p)
        .map_err(|x| format!("m={} e={} p={}: refused: {}", m, e, p, x))?;
    let w = width(e, p);
    let head = |db: &IndexDatabase, what: &str| -> R {
        let got = (
            db.get_matrix_height(),
            db.get_row_width_self(),
            db.get_elem_size(),
            db.get_plaintext_bits(),
            IndexDatabase::get_row_width(e, p),
        );
        if got != (m, w, e, p, w) {
            return Err(format!(
                "{}: height, width, element size, plaintext bits, width {:?}, expected {:?}",
                what,
                got,
                (m, w, e, p, w)
            ));
        }
        Ok(())
    };
    let entries = |db: &IndexDatabase, what: &str| -> R {
        for i in 0..m {
            let got = db.get_db_entry(i);
            if got != strs[i] {
                return Err(format!(
                    "{} e={} p={} row {} of {}: {} instead of {}",
                    what, e, p, i, m, got, strs[i]
                ));
            }
        }
        Ok(())
    };
    head(&db, "database")?;
    entries(&db, "entry")?;
    c.steps(m as u64 + 1);
    if deep {
        // The matrix the server uses: column j of unit vector i is digit j.
        let rows: Vec<Vec<u32>> = el.iter().map(|b| digits(b, e, p)).collect();
        for i in 0..m {
            let mut q = vec![0u32; m];
            q[i] = 1;
            for j in 0..w {
                let got = db.vec_mult(&q, j);
                if got != rows[i][j] {
                    return Err(format!(
                        "e={} p={} row {} digit {}: {} instead of {}",
                        e, p, i, j, got, rows[i][j]
                    ));
                }
                if (got as u64) >> p != 0 {
                    return Err(format!("digit {} not below 2^{}", got, p));
                }
            }
        }
        // Transposed: rows; transposed again: as before.
        let mut t = db.clone();
        t.switch_fmt();
        for i in 0..m {
            if t.get_row(i) != rows[i] {
                return Err(format!(
                    "e={} p={}: row {} of the transposed matrix is {:?}, expected {:?}",
                    e,
                    p,
                    i,
                    trunc(&t.get_row(i)),
                    trunc(&rows[i])
                ));
            }
        }
        t.switch_fmt();
        head(&t, "transposed twice")?;
        entries(&t, "transposed twice")?;
        for j in 0..w {
            if t.get_row(j) != db.get_row(j) {
                return Err(format!("transposing twice changes column {}", j));
            }
        }
        // Iteration over a shard
        let s = Shard::from_base64_strings(&strs, 1, m, e, p).map_err(|x| x.to_string())?;
        let it: Vec<String> = s.into_row_iter().collect();
        if it != strs {
            return Err(format!("e={} p={}: iteration yields {:?}", e, p, trunc(&it)));
        }
        head(s.get_db(), "shard")?;
        c.steps((m * w) as u64 + 3);
    }
    c.state(&(e, p, m, el));
    c.outcome(&strs);
    c.trace();
    Ok(())
}

fn kv_value(c: &mut Case, key: &str, b: &[u8], e: usize, p: usize) -> R {
    let kv = KeyValue::from_base64_strings(key, &b64(b), e, p)
        .map_err(|x| format!("e={} p={}: refused: {}", e, p, x))?;
    let d = Sha256::digest(key.as_bytes());
    for i in 0..4 {
        let mut w = [0u8; 8];
        w.copy_from_slice(&d[8 * i..8 * i + 8]);
        if kv.key[i] != u64::from_le_bytes(w) {
            return Err(format!("key {:?}: word {} of the hash is {:x}", key, i, kv.key[i]));
        }
    }
    let want = digits(b, e, p);
    if kv.value != want {
        return Err(format!(
            "e={} p={}: value {:?} split into {:?} instead of {:?}",
            e,
            p,
            trunc(b),
            trunc(&kv.value),
            trunc(&want)
        ));
    }
    if base64_from_u32_slice(&kv.value, p, e) != b64(b) || bytes_from_u32_slice(&kv.value, p, e) != b
    {
        return Err(format!("e={} p={}: joining the digits of {:?} differs", e, p, trunc(b)));
    }
    c.steps(3);
    c.state(&(key, e, p, b));
    c.outcome(&kv.value);
    c.trace();
    Ok(())
}

fn kv_db(c: &mut Case, n: usize, e: usize, p: usize, kind: usize) -> R {
    let keys: Vec<String> = (0..n).map(|i| format!("key {}", i)).collect();
    let el = elements(kind, n, e);
    let w = width(e, p);
    let s = KVShard::from_base64_strings(&keys, &b64s(&el), 1, n, e, p)
        .map_err(|x| format!("n={} e={} p={}: {}", n, e, p, x))?;
    let db = s.get_db();
    let h = db.get_matrix_height();
    let got = (
        db.get_row_width_self(),
        db.get_elem_size(),
        db.get_plaintext_bits(),
        KVDatabase::get_row_width(e, p),
        db.entries.len(),
    );
    if got != (w, e, p, w, w) {
        return Err(format!("n={} e={} p={}: reports {:?}", n, e, p, got));
    }
    for (j, col) in db.entries.iter().enumerate() {
        if col.len() != h {
            return Err(format!("column {} has {} entries, height {}", j, col.len(), h));
        }
        if let Some(x) = col.iter().find(|x| (**x as u64) >> p != 0) {
            return Err(format!("entry {} not below 2^{}", x, p));
        }
    }
    let it: Vec<String> = s.into_row_iter().collect();
    if it.len() != h {
        return Err(format!("iteration yields {} of {} rows", it.len(), h));
    }
    for i in 0..h {
        let row: Vec<u32> = db.entries.iter().map(|c| c[i]).collect();
        let want = b64(&join(&row, e, p));
        if it[i] != want || db.get_db_entry(i) != want {
            return Err(format!("n={} e={} p={}: row {} reads {}", n, e, p, i, it[i]));
        }
    }
    let mut t = db.clone();
    t.switch_fmt();
    for i in 0..h {
        let row: Vec<u32> = db.entries.iter().map(|c| c[i]).collect();
        if t.get_row(i) != row {
            return Err(format!("transposed row {} differs", i));
        }
    }
    t.switch_fmt();
    if t.entries != db.entries {
        return Err("transposing twice changes the matrix".into());
    }
    c.steps(h as u64 + 3);
    c.state(&(n, e, p, kind, &db.entries));
    c.outcome(&it);
    c.trace();
    Ok(())
}

// ------------------------------------------------------------------- codecs

fn codec_bits(c: &mut Case, len: usize, bits: &[bool]) -> R {
    let bytes = bits_to_bytes_le(bits);
    if bytes.len() != (len + 7) / 8 {
        return Err(format!("{} bits become {} bytes", len, bytes.len()));
    }
    for (i, b) in bits.iter().enumerate() {
        if ((bytes[i / 8] >> (i % 8)) & 1 == 1) != *b {
            return Err(format!("{} bits: bit {} is wrong", len, i));
        }
    }
    let back = bytes_to_bits_le(&bytes);
    if back.len() != bytes.len() * 8
        || back[..len] != *bits
        || back[len..].iter().any(|b| *b)
    {
        return Err(format!("{} bits: bytes and back differ", len));
    }
    let as_word = bits_to_u32_le(bits);
    if len <= 32 {
        let want = bits.iter().enumerate().fold(0u32, |a, (i, b)| a | ((*b as u32) << i));
        match &as_word {
            Ok(w) if *w == want => {}
            x => return Err(format!("{} bits as a word: {:?} instead of {}", len, x, want)),
        }
        let again = u32_to_bits_le(want, len);
        if again != bits {
            return Err(format!("word {} of {} bits and back differs", want, len));
        }
    } else if as_word.is_ok() {
        return Err(format!("{} bits are accepted as a word", len));
    }
    c.steps(3);
    Ok(())
}

fn codec_len(c: &mut Case, len: usize) -> R {
    if len <= 16 {
        for x in 0..1u32 << len {
            let bits: Vec<bool> = (0..len).map(|i| (x >> i) & 1 == 1).collect();
            codec_bits(c, len, &bits)?;
        }
        c.states_by_construction(1 << len);
        c.traces(1 << len);
    } else {
        let mut n = 0;
        let mut go = |c: &mut Case, f: &dyn Fn(usize) -> bool| -> R {
            let bits: Vec<bool> = (0..len).map(f).collect();
            n += 1;
            codec_bits(c, len, &bits)
        };
        go(c, &|_| true)?;
        go(c, &|_| false)?;
        go(c, &|i| i % 2 == 0)?;
        go(c, &|i| i % 3 == 0)?;
        go(c, &|i| sm(i as u64) & 1 == 1)?;
        let step = (len / 400).max(1);
        for k in (0..len).step_by(step).chain([len - 1]) {
            go(c, &|i| i == k)?;
            if len <= 300 {
                go(c, &|i| i != k)?;
            }
        }
        c.states_by_construction(n);
        c.traces(n);
    }
    c.outcome(&len);
    Ok(())
}

fn codec_bytes(c: &mut Case) -> R {
    // all byte strings of length 0..2, patterns beyond
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 {
        all.push(vec![a]);
        for b in 0..=255u8 {
            all.push(vec![a, b]);
        }
    }
    for n in [3usize, 4, 5, 8, 31, 32, 33, 255, 256, 1024, 5000] {
        for k in 0..KINDS {
            all.push(content(k, n, n * 8));
        }
    }
    for b in &all {
        let bits = bytes_to_bits_le(b);
        if bits.len() != 8 * b.len() {
            return Err(format!("{} bytes become {} bits", b.len(), bits.len()));
        }
        for (i, x) in bits.iter().enumerate() {
            if *x != (bit(b, i) == 1) {
                return Err(format!("bytes {:?}: bit {} is wrong", trunc(b), i));
            }
        }
        if bits_to_bytes_le(&bits) != *b {
            return Err(format!("bytes {:?} and back differ", trunc(b)));
        }
        c.steps(2);
        c.state(b);
        c.trace();
    }
    for n in 0..=9usize {
        let v: Vec<u8> = (0..n as u8).map(|x| x.wrapping_add(250)).collect();
        match u32_sized_bytes_from_vec(v.clone()) {
            Ok(b) if n == 4 && b.to_vec() == v => {}
            Err(_) if n != 4 => {}
            x => return Err(format!("{} bytes as a word: {:?}", n, x.is_ok())),
        }
    }
    Ok(())
}

/// bytes_from_u32_slice on every row of digits.
fn codec_rows(c: &mut Case, p: usize, th: bool) -> R {
    let cap = if th { 18 } else { 14 };
    for e in 1..=(4 * p).min(140) {
        let w = width(e, p);
        if e <= cap {
            for x in 0..1u64 << e {
                let b: Vec<u8> = x.to_le_bytes()[..nbytes(e)].to_vec();
                let d = digits(&b, e, p);
                if bytes_from_u32_slice(&d, p, e) != b {
                    return Err(format!("e={} p={}: {:?} joins to another element", e, p, d));
                }
                if base64_from_u32_slice(&d, p, e) != b64(&b) {
                    return Err(format!("e={} p={}: {:?} joins to another string", e, p, d));
                }
            }
            c.steps(2 << e);
            c.states_by_construction(1 << e);
            c.traces(1 << e);
        } else {
            for k in 0..KINDS {
                let b = content(k, 3, e);
                let d = digits(&b, e, p);
                if d.len() != w || bytes_from_u32_slice(&d, p, e) != b {
                    return Err(format!("e={} p={} kind {}: joins to another element", e, p, k));
                }
                c.steps(1);
                c.state(&(e, p, k));
                c.trace();
            }
        }
        c.outcome(&(e, p, w));
    }
    Ok(())
}

fn words(c: &mut Case) -> R {
    for x in 0..1u32 << 16 {
        for (v, lens) in [(x, [16usize, 17, 32, 31]), (x << 16 | x, [32, 32, 32, 32])] {
            for l in lens {
                let bits = u32_to_bits_le(v, l);
                if bits.len() != l {
                    return Err(format!("word {} as {} bits has {}", v, l, bits.len()));
                }
                for (i, b) in bits.iter().enumerate() {
                    if *b != ((v >> i) & 1 == 1) {
                        return Err(format!("word {} as {} bits: bit {}", v, l, i));
                    }
                }
                let back = bits_to_u32_le(&bits).map_err(|e| e.to_string())?;
                if l >= 17 && l < 32 && back != v || l == 32 && back != v {
                    return Err(format!("word {} as {} bits and back: {}", v, l, back));
                }
                c.steps(2);
            }
        }
    }
    c.states_by_construction(2 << 16);
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let top = if th { 520 } else { 160 };
    pl.bound(format!("index databases: element sizes 1..{} bits x plaintext bits 1..31 x rows {{1,2,3,8}} x 8 contents, digit by digit; all contents of elements of up to 10 bits; sizes beyond 2^16 and 2^24 bits and 2^16 columns and rows at chosen points", top));
    pl.bound("values: the same grid of sizes; keyword databases of up to 300 pairs, every row");
    pl.bound("codecs: all bit strings of length 0..16, all byte strings of length 0..2, single-bit and patterned strings to 70000 bits, strings beyond 2^24 bits, all 16-bit and doubled words, all digit rows of elements up to 14 bits");
    for p in 1..=31usize {
        pl.case(format!("index p={}", p), move |c| {
            for e in 1..=top {
                for m in [1usize, 2, 3, 8] {
                    for kind in 0..KINDS {
                        if m != 3 && kind > 1 && !c.thorough() {
                            continue;
                        }
                        index_db(c, &elements(kind, m, e), e, p, true)?;
                    }
                }
            }
            c.sample(format!("sizes 1..{} bits with {} plaintext bits", top, p));
            Ok(())
        });
        pl.case(format!("all contents p={}", p), move |c| {
            for e in 1..=(if c.thorough() { 13 } else { 10 }) {
                let all: Vec<Vec<u8>> = (0..1u64 << e)
                    .map(|x| x.to_le_bytes()[..nbytes(e)].to_vec())
                    .collect();
                index_db(c, &all, e, p, e <= 8)?;
            }
            Ok(())
        });
        pl.case(format!("values p={}", p), move |c| {
            for e in 1..=top {
                for kind in 0..KINDS {
                    let key = format!("{}-{}", e, kind);
                    kv_value(c, &key, &content(kind, 1, e), e, p)?;
                }
            }
            for (key, e) in [("", 1), ("a", 8), ("AA==", 64), ("\u{e4}\u{2603}", 9)] {
                kv_value(c, key, &content(0, 1, e), e, p)?;
            }
            kv_value(c, &"k".repeat(1000), &content(0, 1, 5000), 5000, p)?;
            Ok(())
        });
        pl.case(format!("rows p={}", p), move |c| codec_rows(c, p, th));
        if p >= 8 || !checked_build() {
            // Below 8 bits the mod-p filter has a documented debug assertion.
            pl.case(format!("kv p={}", p), move |c| {
                for n in [1usize, 2, 7, 40, 300] {
                    for e in [p, p + 1, 2 * p - 1, 2 * p, 3 * p + 1] {
                        kv_db(c, n, e, p, (n + e) % KINDS)?;
                    }
                }
                Ok(())
            });
        }
    }
    for (m, e, p) in [
        (5000usize, 24usize, 9usize),
        (1000, 256, 11),
        (3, 8192, 10),
        (2, 65536, 11),
        (2, 65535, 31),
        (2, 65537, 1),
        (70_000, 9, 8),
        (2, 70_000 * 3 + 2, 3),
        (1, (1 << 24) + 77, 31),
        (1, (1 << 24) + 9, 8),
    ] {
        pl.case(format!("large m={} e={} p={}", m, e, p), move |c| {
            for kind in [0usize, 1, 7] {
                if e > 1 << 20 && kind > 0 {
                    continue;
                }
                index_db(c, &elements(kind, m, e), e, p, m * m * e / p < 100_000_000)?;
            }
            Ok(())
        });
    }
    let lens: Vec<usize> = (0..=300)
        .chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 70_000])
        .collect();
    for chunk in lens.chunks(20) {
        let chunk = chunk.to_vec();
        pl.case(format!("bit strings {}..", chunk[0]), move |c| {
            for &l in &chunk {
                codec_len(c, l)?;
            }
            Ok(())
        });
    }
    // lengths at which a narrower integer or a float index would wrap
    for len in [(1usize << 24) + 1, (1 << 24) + 13, (1 << 24) + 4096] {
        pl.case(format!("bit string {}", len), move |c| {
            let bits: Vec<bool> = (0..len).map(|i| sm(i as u64) & 1 == 1).collect();
            codec_bits(c, len, &bits)?;
            c.state(&len);
            c.trace();
            Ok(())
        });
    }
    for (e, p) in [(70_000usize, 1usize), (210_005, 3), ((1 << 24) + 77, 31), ((1 << 24) + 9, 11)] {
        pl.case(format!("large value e={} p={}", e, p), move |c| {
            kv_value(c, "large", &content(0, 1, e), e, p)?;
            if e < 1 << 20 && (p >= 8 || !checked_build()) {
                kv_db(c, 2, e, p, 0)?;
            }
            Ok(())
        });
    }
    if !checked_build() {
        pl.case("tall kv", |c| kv_db(c, 60_000, 7, 6, 0));
    } else {
        pl.case("tall kv", |c| kv_db(c, 60_000, 17, 9, 0));
    }
    pl.case("byte strings", codec_bytes);
    pl.case("words", words);
    pl.case("file", |c| {
        let d = scratch("c09")?;
        for (m, e, p) in [(1usize, 8usize, 8usize), (3, 12, 5), (7, 256, 11)] {
            for kind in 0..KINDS {
                let el = elements(kind, m, e);
                let path = format!("{}/db.json", d.path);
                std::fs::write(&path, serde_json::to_vec(&b64s(&el)).unwrap())
                    .map_err(|x| format!("harness: {}", x))?;
                let db = IndexDatabase::from_file(&path, m, e, p).map_err(|x| x.to_string())?;
                let s = Shard::from_json_file(&path, 2, m, e, p).map_err(|x| x.to_string())?;
                for i in 0..m {
                    if db.get_db_entry(i) != b64(&el[i]) || s.get_db().get_db_entry(i) != b64(&el[i]) {
                        return Err(format!("loaded from a file: row {} differs", i));
                    }
                }
                c.steps(2);
                c.state(&(m, e, p, kind));
                c.trace();
            }
        }
        Ok(())
    });
}
