//! C23: the database generator writes what was asked for, and shards of the
//! same parameters serve it.
//!
//! The scripts run from copies in a scratch directory.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use std::process::{Command, Stdio};

const REPO: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo");

#[derive(Clone)]
struct Run {
    exp: Option<usize>,
    bits: Option<usize>,
    size_exp: Option<usize>,
    ones: Option<&'static str>,
    path: Option<&'static str>,
}
fn stage() -> Result<Scratch, String> {
    let sc = scratch("c23")?;
    std::fs::create_dir_all(format!("{}/data", sc.path)).map_err(|e| e.to_string())?;
    for f in ["data/generate_db.py", "Makefile"] {
        std::fs::copy(format!("{}/{}", REPO, f), format!("{}/{}", sc.path, f)).map_err(|e| format!("{}: {}", f, e))?;
    }
    Ok(sc)
}
fn clean(c: &mut Command) -> &mut Command {
    for k in ["DB_ALL_ONES", "DB_NUM_ENTRIES_EXP", "DB_ELEMENT_SIZE_BITS", "DB_ELEMENT_SIZE_EXP", "DB_OUTPUT_PATH", "MAKEFLAGS", "MAKELEVEL"] {
        c.env_remove(k);
    }
    c.env("PYTHONDONTWRITEBYTECODE", "1").stdout(Stdio::null()).stderr(Stdio::null()).stdin(Stdio::null())
}
/// Runs the script in `dir`; the path of the file it must have written.
fn generate(dir: &str, r: &Run) -> Result<(bool, String), String> {
    let mut c = Command::new("python3");
    clean(&mut c).arg("data/generate_db.py").current_dir(dir);
    if let Some(x) = r.exp {
        c.env("DB_NUM_ENTRIES_EXP", x.to_string());
    }
    if let Some(x) = r.bits {
        c.env("DB_ELEMENT_SIZE_BITS", x.to_string());
    }
    if let Some(x) = r.size_exp {
        c.env("DB_ELEMENT_SIZE_EXP", x.to_string());
    }
    if let Some(x) = r.ones {
        c.env("DB_ALL_ONES", x);
    }
    if let Some(x) = r.path {
        c.env("DB_OUTPUT_PATH", x);
    }
    let st = c.status().map_err(|e| format!("harness: python3: {}", e))?;
    Ok((st.success(), format!("{}/{}", dir, r.path.unwrap_or("rand_db.json"))))
}
fn make(dir: &str, exp: usize, bits: usize, ones: usize) -> Result<(bool, String), String> {
    let mut c = Command::new("make");
    clean(&mut c).arg("gen-db").current_dir(dir);
    c.arg(format!("NUMBER_OF_ELEMENTS_EXP={}", exp));
    c.arg(format!("ELEMENT_SIZE_BITS={}", bits));
    c.arg(format!("DB_ALL_ONES={}", ones));
    let st = c.status().map_err(|e| format!("harness: make: {}", e))?;
    Ok((st.success(), format!("{}/data/rand_db.json", dir)))
}
fn load(path: &str) -> Result<Vec<Vec<u8>>, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let v: Vec<String> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    v.iter().map(|x| base64::decode(x).map_err(|e| e.to_string())).collect()
}
/// The file holds exactly 2^exp elements of `bits` bits that a shard serves.
fn judge(c: &mut Case, what: &str, path: &str, exp: usize, bits: usize, ones: bool, p: usize) -> R {
    let el = load(path).map_err(|e| format!("{}: {}", what, e))?;
    let m = 1usize << exp;
    if el.len() != m {
        return Err(format!("{}: {} elements instead of {}", what, el.len(), m));
    }
    let len = (bits + 7) / 8;
    let last = if bits % 8 == 0 { 0xffu8 } else { (1 << (bits % 8)) - 1 };
    let (mut and, mut or) = (vec![0xffu8; len], vec![0u8; len]);
    for (i, b) in el.iter().enumerate() {
        if b.len() != len || b[len - 1] & !last != 0 {
            return Err(format!("{}: element {} of {} bytes is not one of {} bits", what, i, b.len(), bits));
        }
        for k in 0..len {
            and[k] &= b[k];
            or[k] |= b[k];
        }
    }
    let full = |v: &[u8]| (0..len).all(|k| v[k] == if k + 1 == len { last } else { 0xff });
    if ones && !full(&and) {
        return Err(format!("{}: not all bits are set", what));
    }
    if !ones {
        // with 2^7 or more elements each bit takes both values but for a
        // chance below 2^-100
        if m >= 128 && (and.iter().any(|x| *x != 0) || !full(&or)) {
            return Err(format!("{}: a bit of the random elements never changes", what));
        }
        if bits >= 160 {
            let mut v = el.clone();
            v.sort();
            v.dedup();
            if v.len() != m {
                return Err(format!("{}: random elements repeat", what));
            }
        }
    }
    let s = Shard::from_json_file(path, 2, m, bits, p).map_err(|e| format!("{}: a shard of these parameters refuses the file: {}", what, e))?;
    let rows: Vec<Vec<u8>> = s.clone().into_row_iter().map(|x| base64::decode(x).unwrap_or_default()).collect();
    if rows != el {
        return Err(format!("{}: the shard holds other elements", what));
    }
    let cp = CommonParams::from(s.get_base_params());
    for row in [0, m - 1, m / 2] {
        index_roundtrip(c, &s, &cp, &el[row], bits, p, row).map_err(|e| format!("{}: {}", what, e))?;
    }
    c.steps(m as u64);
    c.state(&(exp, bits, ones, what));
    c.outcome(&(exp, bits, ones));
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let es: Vec<usize> = if th { (0..=11).collect() } else { (0..=8).collect() };
    let mut bits: Vec<usize> = (1..=if th { 130 } else { 40 }).collect();
    bits.extend([63, 64, 65, 100, 255, 256, 1000, 8191, 8192]);
    pl.bound(format!("generator: exponents 0..{} x {} element sizes x random and all-ones; make gen-db with the same; element sizes as exponents; defaults; overwriting; output paths that cannot be written; every retrieval judged on the real shard", es[es.len() - 1], bits.len()));
    pl.assume("random elements are judged by coverage of every bit and distinctness, the source of randomness itself is the operating system's");
    for &exp in &es {
        let bs = bits.clone();
        pl.case(format!("generator exp={}", exp), move |c| {
            let sc = stage()?;
            for &b in &bs {
                if exp > 6 && b > 40 && b % 8 != 0 {
                    continue;
                }
                for ones in ["0", "1"] {
                    let r = Run { exp: Some(exp), bits: Some(b), size_exp: None, ones: Some(ones), path: Some("data/db.json") };
                    let what = format!("DB_NUM_ENTRIES_EXP={} DB_ELEMENT_SIZE_BITS={} DB_ALL_ONES={}", exp, b, ones);
                    let (ok, f) = generate(&sc.path, &r)?;
                    if !ok {
                        return Err(format!("{}: the generator fails", what));
                    }
                    judge(c, &what, &f, exp, b, ones == "1", 1 + b % 10)?;
                }
            }
            c.sample(format!("2^{} elements of {} sizes written, read and served", exp, bs.len()));
            Ok(())
        });
    }
    pl.case("make", move |c| {
        let sc = stage()?;
        for exp in [0usize, 1, 3, 7] {
            for bits in [1usize, 8, 20, 64, 300, 8192] {
                for ones in [0usize, 1] {
                    let what = format!("make gen-db NUMBER_OF_ELEMENTS_EXP={} ELEMENT_SIZE_BITS={} DB_ALL_ONES={}", exp, bits, ones);
                    let (ok, f) = make(&sc.path, exp, bits, ones)?;
                    if !ok {
                        return Err(format!("{}: fails", what));
                    }
                    judge(c, &what, &f, exp, bits, ones == 1, 10)?;
                }
            }
        }
        Ok(())
    });
    pl.case("sizes given as exponents, defaults", move |c| {
        let sc = stage()?;
        for k in 0..=14usize {
            for exp in [0usize, 2] {
                let r = Run { exp: Some(exp), bits: None, size_exp: Some(k), ones: Some("0"), path: None };
                let what = format!("DB_NUM_ENTRIES_EXP={} DB_ELEMENT_SIZE_EXP={}", exp, k);
                let (ok, f) = generate(&sc.path, &r)?;
                if !ok {
                    return Err(format!("{}: the generator fails", what));
                }
                judge(c, &what, &f, exp, 1 << k, false, 9)?;
            }
        }
        let r = Run { exp: Some(1), bits: None, size_exp: None, ones: Some("0"), path: None };
        let (ok, f) = generate(&sc.path, &r)?;
        if !ok {
            return Err("defaults: the generator fails".into());
        }
        judge(c, "default element size", &f, 1, 8192, false, 10)?;
        Ok(())
    });
    pl.case("overwriting and failing", move |c| {
        let sc = stage()?;
        // every order of two sizes at the same path
        for a in [1usize, 8, 64, 700] {
            for b in [1usize, 8, 64, 700] {
                for (x, y) in [(0usize, 3usize), (3, 0), (2, 2)] {
                    for (e, bits) in [(x, a), (y, b)] {
                        let r = Run { exp: Some(e), bits: Some(bits), size_exp: None, ones: Some("0"), path: Some("data/one.json") };
                        let (ok, f) = generate(&sc.path, &r)?;
                        if !ok {
                            return Err("overwriting: the generator fails".into());
                        }
                        judge(c, &format!("2^{} of {} bits over an older file", e, bits), &f, e, bits, false, 8)?;
                    }
                }
            }
        }
        for path in ["missing/dir/db.json", "data", "data/generate_db.py/x"] {
            let r = Run { exp: Some(1), bits: Some(8), size_exp: None, ones: Some("0"), path: Some(path) };
            if generate(&sc.path, &r)?.0 {
                return Err(format!("DB_OUTPUT_PATH={}: success is reported", path));
            }
            c.steps(1);
        }
        for (k, v) in [("DB_NUM_ENTRIES_EXP", "x"), ("DB_NUM_ENTRIES_EXP", "1.5"), ("DB_ELEMENT_SIZE_BITS", "8b"), ("DB_ELEMENT_SIZE_BITS", "many")] {
            let mut cmd = Command::new("python3");
            clean(&mut cmd).arg("data/generate_db.py").current_dir(&sc.path);
            cmd.env("DB_NUM_ENTRIES_EXP", "1").env("DB_ELEMENT_SIZE_BITS", "8").env("DB_OUTPUT_PATH", "data/bad.json").env(k, v);
            if cmd.status().map_err(|e| e.to_string())?.success() {
                return Err(format!("{}={}: success is reported", k, v));
            }
            c.steps(1);
        }
        Ok(())
    });
}
