//! C11: written files are complete and reloadable, or the write reports an
//! error. Every byte offset at which the device can fail is tried.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexParams, KVParams};
use std::sync::Arc;

/// Limits the size of files this process can write while it lives: writes
/// beyond fail with EFBIG after having been cut short.
struct Limit(libc::rlimit);
impl Limit {
    fn set(bytes: u64) -> Limit {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
            let new = libc::rlimit { rlim_cur: bytes, rlim_max: old.rlim_max };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &new) != 0 {
                panic!("harness: setrlimit");
            }
            Limit(old)
        }
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}

enum Any {
    Index(Shard, Vec<Vec<u8>>),
    Kv(KVShard, Vec<[u64; 4]>, Vec<Vec<u8>>),
}
struct Spec {
    kv: bool,
    n: usize,
    dim: usize,
    e: usize,
    p: usize,
    kind: usize,
}
impl Spec {
    fn name(&self) -> String {
        format!(
            "{} n={} dim={} e={} p={} kind={}",
            if self.kv { "keyword" } else { "index" },
            self.n,
            self.dim,
            self.e,
            self.p,
            self.kind
        )
    }
    fn build(&self) -> Result<Any, String> {
        if self.kv {
            let keys = keyset(0, self.n);
            let (kvs, el) = kvs_of(&keys, self.kind, self.e, self.p);
            let s = KVShard::new(&kvs, self.dim, self.n, self.e, self.p).map_err(|x| x.to_string())?;
            Ok(Any::Kv(s, keys, el))
        } else {
            let el = elements(self.kind, self.n, self.e);
            let s = Shard::from_base64_strings(&b64s(&el), self.dim, self.n, self.e, self.p)
                .map_err(|x| x.to_string())?;
            Ok(Any::Index(s, el))
        }
    }
}

impl Any {
    /// What can be written: both files, or one of them alone.
    fn write(&self, what: usize, db: &str, params: &str) -> Result<Result<(), String>, String> {
        no_panic(|| {
            match (self, what) {
                (Any::Index(s, _), 0) => s.write_to_file(db, params),
                (Any::Index(s, _), 1) => s.get_db().write_to_file(db),
                (Any::Index(s, _), _) => s.get_base_params().write_to_file(params),
                (Any::Kv(s, ..), 0) => s.write_to_file(db, params),
                (Any::Kv(s, ..), 1) => s.get_db().write_to_file(db),
                (Any::Kv(s, ..), _) => s.get_base_params().write_to_file(params),
            }
            .map_err(|e| e.to_string())
        })
    }
    fn check_db(&self, spec: &Spec, path: &str) -> R {
        let b = std::fs::read(path).map_err(|e| format!("database file: {}", e))?;
        let got: Vec<Vec<u32>> = serde_json::from_slice(&b)
            .map_err(|e| format!("database file of {} bytes is not complete JSON: {}", b.len(), e))?;
        let want: Vec<Vec<u32>> = match self {
            Any::Index(_, el) => {
                let rows: Vec<Vec<u32>> = el.iter().map(|x| digits(x, spec.e, spec.p)).collect();
                (0..rows[0].len()).map(|j| rows.iter().map(|r| r[j]).collect()).collect()
            }
            Any::Kv(s, ..) => s.get_db().entries.clone(),
        };
        if got != want {
            return Err("the database file does not hold the database matrix".into());
        }
        Ok(())
    }
    fn check_params(&self, spec: &Spec, path: &str, tape: bool) -> R {
        match self {
            Any::Index(s, el) => {
                let bp = no_panic(|| IndexParams::load(path))?
                    .map_err(|e| format!("written parameters do not load: {}", e))?;
                same_params(s.get_base_params(), &bp)?;
                if !tape {
                    return Ok(());
                }
                let cp = CommonParams::from(&bp);
                for row in 0..el.len() {
                    let mut qp = generate_index_query_params(&cp, &bp).map_err(|e| e.to_string())?;
                    let q = qp.generate_query(row).map_err(|e| e.to_string())?;
                    let r = resp_of(&s.answer(&q)?)?;
                    if qp.parse_resp_as_bytes(&r) != el[row] {
                        return Err(format!("{}: row {} decodes wrongly with loaded parameters", spec.name(), row));
                    }
                }
            }
            Any::Kv(s, keys, el) => {
                let b = std::fs::read(path).map_err(|e| e.to_string())?;
                let bp: KVParams = serde_json::from_slice(&b)
                    .map_err(|e| format!("written parameters do not load: {}", e))?;
                same_params(s.get_base_params(), &bp)?;
                let (a, b) = (s.get_base_params().get_filter_params(), bp.get_filter_params());
                if (a.seed, a.segment_length, a.segment_length_mask, a.segment_count_length)
                    != (b.seed, b.segment_length, b.segment_length_mask, b.segment_count_length)
                {
                    return Err("loaded filter parameters differ".into());
                }
                if !tape {
                    return Ok(());
                }
                let cp = CommonParams::from(&bp);
                for (k, want) in keys.iter().zip(el) {
                    let mut qp = generate_kv_query_params(&cp, &bp).map_err(|e| e.to_string())?;
                    let q = qp.generate_query(k).map_err(|e| e.to_string())?;
                    let r = resp_of(&s.answer(&q)?)?;
                    if qp.parse_resp_as_bytes(&r, k).map_err(|e| e.to_string())? != *want {
                        return Err(format!("{}: key {:x?} decodes wrongly with loaded parameters", spec.name(), k));
                    }
                }
            }
        }
        Ok(())
    }
}
fn same_params<P: BaseParams>(a: &P, b: &P) -> R {
    if a.get_dim() != b.get_dim()
        || a.get_total_records() != b.get_total_records()
        || a.get_elem_size() != b.get_elem_size()
        || a.get_plaintext_bits() != b.get_plaintext_bits()
        || a.get_public_seed() != b.get_public_seed()
        || a.get_rhs() != b.get_rhs()
    {
        return Err("loaded parameters differ from the original".into());
    }
    Ok(())
}

/// Success: complete files, whatever was there before.
fn success(c: &mut Case, spec: &Spec) -> R {
    let d = scratch("c11")?;
    let x = spec.build()?;
    let (db, pa) = (format!("{}/db.json", d.path), format!("{}/params.json", d.path));
    let mut first = vec![];
    for old in 0..7usize {
        for what in 0..3 {
            for f in [&db, &pa] {
                let _ = std::fs::remove_file(f);
                let n = match old {
                    0 => continue,
                    1 => 0,
                    2 => 1,
                    3 => 100,
                    4 => 100_000,
                    5 => first.len() + 1,
                    _ => first.len(),
                };
                std::fs::write(f, vec![b']'; n]).map_err(|e| format!("harness: {}", e))?;
            }
            x.write(what, &db, &pa)?.map_err(|e| format!("{}: write fails: {}", spec.name(), e))?;
            if what < 2 {
                x.check_db(spec, &db).map_err(|e| format!("{} over {}: {}", spec.name(), old, e))?;
            }
            if what != 1 {
                x.check_params(spec, &pa, true)
                    .map_err(|e| format!("{} over {}: {}", spec.name(), old, e))?;
                first = std::fs::read(&pa).map_err(|e| e.to_string())?;
            }
            c.steps(3);
            c.state(&(spec.name(), old, what));
            c.trace();
        }
    }
    // twice in a row
    x.write(0, &db, &pa)?.map_err(|e| e)?;
    x.write(0, &db, &pa)?.map_err(|e| e)?;
    x.check_db(spec, &db)?;
    x.check_params(spec, &pa, true)?;
    // the file also loads from another shard's place: independent objects
    c.outcome(&h64(&first));
    c.sample(format!("{}: parameters file of {} bytes", spec.name(), first.len()));
    Ok(())
}

/// The device fails after every possible number of bytes.
fn faults(c: &mut Case, spec: &Spec) -> R {
    let d = scratch("c11")?;
    let x = spec.build()?;
    let (db, pa) = (format!("{}/db.json", d.path), format!("{}/params.json", d.path));
    x.write(0, &db, &pa)?.map_err(|e| format!("write fails: {}", e))?;
    let len = |p: &str| std::fs::metadata(p).map(|m| m.len()).map_err(|e| e.to_string());
    let (ld, lp) = (len(&db)?, len(&pa)?);
    let full = [ld.max(lp), ld, lp];
    let step = if c.thorough() { 1 } else { 1 + full[0] / 6000 };
    for what in 0..3usize {
        let mut errs = 0u64;
        let mut k = 0;
        while k < full[what] + 3 {
            for fresh in [true, false] {
                if fresh {
                    let _ = std::fs::remove_file(&db);
                    let _ = std::fs::remove_file(&pa);
                } else if k % 16 != 0 {
                    continue;
                }
                let r = {
                    let _l = Limit::set(k);
                    x.write(what, &db, &pa)
                }
                .map_err(|e| format!("{}: device full after {} bytes: panic: {}", spec.name(), k, e))?;
                let ok = r.is_ok();
                errs += !ok as u64;
                if ok && k < full[what] {
                    return Err(format!(
                        "{} ({}): the write reports success although the device took only {} of {} bytes",
                        spec.name(),
                        ["both files", "database", "parameters"][what],
                        k,
                        full[what]
                    ));
                }
                if ok {
                    // then all must be there
                    if what < 2 {
                        x.check_db(spec, &db)?;
                    }
                    if what != 1 {
                        x.check_params(spec, &pa, false)?;
                    }
                } else if k >= full[what] {
                    return Err(format!("{}: the write fails although {} bytes fit", spec.name(), k));
                }
                c.steps(1);
                c.state(&(spec.name(), what, k, fresh, ok));
                c.trace();
            }
            k += if k < 200 || k + 200 > full[what] || (k + 50 > ld && k < ld + 50) { 1 } else { step };
        }
        c.outcome(&(what, errs));
        // afterwards a write succeeds again
        x.write(what, &db, &pa)?.map_err(|e| format!("a later write fails: {}", e))?;
    }
    Ok(())
}

/// Loading every truncation.
fn truncated(c: &mut Case, spec: &Spec) -> R {
    let d = scratch("c11")?;
    let x = spec.build()?;
    let (db, pa) = (format!("{}/db.json", d.path), format!("{}/params.json", d.path));
    x.write(0, &db, &pa)?.map_err(|e| format!("write fails: {}", e))?;
    let b = std::fs::read(&pa).map_err(|e| e.to_string())?;
    let t = format!("{}/cut.json", d.path);
    for k in 0..b.len() {
        match &x {
            Any::Index(s, _) => {
                std::fs::write(&t, &b[..k]).map_err(|e| format!("harness: {}", e))?;
                match no_panic(|| IndexParams::load(&t)).map_err(|e| format!("cut to {}: panic: {}", k, e))? {
                    Err(_) => {}
                    // only if nothing is missing
                    Ok(p) => same_params(s.get_base_params(), &p)
                        .map_err(|e| format!("parameters cut to {} of {} bytes load: {}", k, b.len(), e))?,
                }
            }
            Any::Kv(s, ..) => {
                if let Ok(p) = serde_json::from_slice::<KVParams>(&b[..k]) {
                    same_params(s.get_base_params(), &p)
                        .map_err(|e| format!("parameters cut to {} of {} bytes load: {}", k, b.len(), e))?;
                }
            }
        }
        c.steps(1);
        c.state(&(spec.name(), "cut", k));
        c.trace();
    }
    Ok(())
}

fn bad_paths(c: &mut Case, spec: &Spec) -> R {
    let d = scratch("c11")?;
    let x = spec.build()?;
    std::fs::create_dir_all(format!("{}/dir", d.path)).map_err(|e| e.to_string())?;
    std::fs::write(format!("{}/file", d.path), b"x").map_err(|e| e.to_string())?;
    let bad = [
        format!("{}/missing/file.json", d.path),
        format!("{}/dir", d.path),
        format!("{}/file/below", d.path),
        String::new(),
        format!("{}/nul\0byte", d.path),
        format!("{}/{}", d.path, "n".repeat(300)),
    ];
    let good = format!("{}/good.json", d.path);
    for b in &bad {
        for (what, db, pa) in [
            (0, b.as_str(), good.as_str()),
            (0, good.as_str(), b.as_str()),
            (0, b.as_str(), b.as_str()),
            (1, b.as_str(), good.as_str()),
            (2, good.as_str(), b.as_str()),
        ] {
            if x.write(what, db, pa).map_err(|e| format!("path {:?}: panic: {}", b, e))?.is_ok() {
                return Err(format!("{}: writing ({}) to {:?} reports success", spec.name(), what, b));
            }
            c.steps(1);
            c.state(&(spec.name(), what, db, pa));
            c.trace();
        }
        if !spec.kv {
            if no_panic(|| IndexParams::load(b)).map_err(|e| format!("load {:?}: panic: {}", b, e))?.is_ok() {
                return Err(format!("loading {:?} succeeds", b));
            }
            c.steps(1);
        }
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.workers = 1; // the file size limit is the process's
    pl.bound("18 shards (index and keyword) x {both files, database only, parameters only} x {no file, empty, shorter, longer, equally long old content}");
    pl.bound(format!("device failing after {} byte (both files, database, parameters; new files, and existing ones every 16th), then a write that succeeds", if th { "every" } else { "every (files beyond 6000 bytes: every few, all near both ends)" }));
    pl.bound("every truncation of the parameters file; 6 paths that cannot be written");
    pl.assume("device failures are those the kernel reports from write (file size limit) or open; loss after a successful return (no fsync) is outside");
    let mut specs = vec![];
    for (kv, n, dim, e, p) in [
        (false, 1usize, 1usize, 8usize, 8usize),
        (false, 1, 4, 40, 10),
        (false, 3, 2, 33, 11),
        (false, 40, 1, 24, 8),
        (false, 2, 30, 62, 11),
        (false, 7, 5, 10, 3),
        (true, 1, 1, 8, 8),
        (true, 2, 3, 22, 11),
        (true, 12, 1, 9, 9),
    ] {
        for kind in [0usize, 1] {
            specs.push(Spec { kv, n, dim, e, p, kind });
        }
    }
    if th {
        for n in 2..12 {
            specs.push(Spec { kv: false, n, dim: 12 - n, e: 31, p: 7, kind: 5 });
            specs.push(Spec { kv: true, n, dim: 12 - n, e: 31, p: 9, kind: 5 });
        }
        specs.push(Spec { kv: false, n: 1500, dim: 20, e: 256, p: 11, kind: 0 });
    }
    for s in specs {
        let s = Arc::new(s);
        let (a, b, d, e) = (s.clone(), s.clone(), s.clone(), s.clone());
        pl.case(format!("success {}", s.name()), move |c| success(c, &a));
        if s.n < 1000 {
            pl.case(format!("faults {}", s.name()), move |c| faults(c, &b));
        }
        pl.case(format!("truncated {}", s.name()), move |c| truncated(c, &d));
        pl.case(format!("paths {}", s.name()), move |c| bad_paths(c, &e));
    }
    // sizes around buffer boundaries: complete after success, reported when
    // the last byte does not fit
    for n in [300usize, 1365, 1366, 2700, 5000, 9000] {
        pl.case(format!("buffer n={}", n), move |c| {
            let spec = Spec { kv: n == 300, n, dim: 2, e: 16, p: 8, kind: 1 };
            let d = scratch("c11")?;
            let x = spec.build()?;
            let (db, pa) = (format!("{}/db.json", d.path), format!("{}/params.json", d.path));
            x.write(0, &db, &pa)?.map_err(|e| format!("write fails: {}", e))?;
            x.check_db(&spec, &db)?;
            x.check_params(&spec, &pa, false)?;
            let full = std::fs::metadata(&db).map_err(|e| e.to_string())?.len();
            for k in [1u64, 2, 100, 4095, 4096, 4097, 8000, 8191, 8192, 8193] {
                if k >= full {
                    continue;
                }
                for lim in [full - k, k] {
                    let r = {
                        let _l = Limit::set(lim);
                        x.write(1, &db, &pa)
                    }?;
                    if r.is_ok() {
                        return Err(format!("database of {} bytes: success although only {} fit", full, lim));
                    }
                    c.steps(1);
                    c.state(&(n, lim));
                    c.trace();
                }
            }
            Ok(())
        });
    }
}
