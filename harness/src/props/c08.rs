//! C08: decoding removes every noise below half the scaling factor.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, IndexParams, KVDatabase, KVParams};
use xorf::BinaryFuseP32;

/// What the word x (offline term already removed) must decode to: one or,
/// exactly in the middle, two values.
fn want(x: u32, p: usize) -> (u32, u32) {
    let d = 1u64 << (32 - p);
    let size = 1u64 << p;
    let x = x as u64;
    let lo = x / d;
    let rem = x % d;
    if 2 * rem < d {
        ((lo % size) as u32, (lo % size) as u32)
    } else if 2 * rem > d {
        (((lo + 1) % size) as u32, ((lo + 1) % size) as u32)
    } else {
        ((lo % size) as u32, ((lo + 1) % size) as u32)
    }
}

enum Dec {
    Index(IQP),
    Kv(KQP, [u64; 4], [u8; 32]),
}
struct Decoder {
    d: Dec,
    rhs: Vec<u32>,
    mask: Vec<u64>,
    p: usize,
}
impl Decoder {
    /// Parameters of a one-row database with `width` columns; the offline
    /// term is that of the secret `coin`.
    fn index(p: usize, width: usize, coin: usize) -> Result<Self, String> {
        let e = p * width;
        let db = IndexDatabase::new(&[b64(&content(0, p, e))], 1, e, p).map_err(|e| e.to_string())?;
        let ip = IndexParams::new(&db, 1);
        let cp = CommonParams::from(&ip);
        let env = Env::install(&coins(&[coin, 0]), &[]);
        let qp = generate_index_query_params(&cp, &ip).map_err(|e| e.to_string())?;
        drop(env);
        let s = [0u32, 1, u32::MAX][coin];
        Ok(Decoder {
            d: Dec::Index(qp),
            rhs: ip.get_rhs().iter().map(|h| s.wrapping_mul(h[0])).collect(),
            mask: vec![0; width],
            p,
        })
    }
    fn kv(p: usize, width: usize, coin: usize, key: [u64; 4]) -> Result<Self, String> {
        let e = p * width;
        let (kvs, _) = kvs_of(&keyset(0, 1), 0, e, p);
        let db = KVDatabase::new(&kvs, 1, e, p).map_err(|e| e.to_string())?;
        let f = db.get_filter_params().clone();
        let kp = KVParams::new(
            &db,
            1,
            f.seed,
            f.segment_length,
            f.segment_length_mask,
            f.segment_count_length,
        );
        let cp = CommonParams::from(&kp);
        let h = kp.get_total_records();
        let mut t = vec![coin];
        t.resize(1 + h, 0);
        let env = Env::install(&coins(&t), &[]);
        let qp = generate_kv_query_params(&cp, &kp).map_err(|e| e.to_string())?;
        drop(env);
        let s = [0u32, 1, u32::MAX][coin];
        Ok(Decoder {
            d: Dec::Kv(qp, key, f.seed),
            rhs: kp.get_rhs().iter().map(|h| s.wrapping_mul(h[0])).collect(),
            mask: (0..width)
                .map(|i| BinaryFuseP32::get_key_fingerprint(&key, f.seed, i as u64))
                .collect(),
            p,
        })
    }
    fn width(&self) -> usize {
        self.rhs.len()
    }
    fn decode(&self, r: &Response) -> Result<Vec<u32>, String> {
        match &self.d {
            Dec::Index(q) => Ok(q.parse_resp_as_row(r)),
            Dec::Kv(q, k, _) => q.parse_resp_as_row(r, k).map_err(|e| e.to_string()),
        }
    }
    /// Judges the decoding of `words` (one per column, offline term not yet
    /// added).
    fn judge(&self, words: &[u32], buf: &mut Vec<u8>) -> Result<Vec<u32>, String> {
        let w = self.width();
        buf.clear();
        buf.extend_from_slice(&(w as u64).to_le_bytes());
        for j in 0..w {
            buf.extend_from_slice(&words[j].wrapping_add(self.rhs[j]).to_le_bytes());
        }
        let r: Response = bincode::deserialize(buf).map_err(|e| e.to_string())?;
        let got = self.decode(&r)?;
        if got.len() != w {
            return Err(format!("{} digits instead of {}", got.len(), w));
        }
        let m = (1u64 << self.p) - 1;
        for j in 0..w {
            let (a, b) = want(words[j], self.p);
            let mk = self.mask[j];
            let a = ((a as u64).wrapping_add(mk) & m) as u32;
            let b = ((b as u64).wrapping_add(mk) & m) as u32;
            if got[j] != a && got[j] != b {
                let d = 1u64 << (32 - self.p);
                let x = words[j] as u64;
                let v = (x + d / 2) / d;
                return Err(format!(
                    "plaintext bits {}: word {:#x} = {} * {:#x} {:+} above the offline term {:#x} decodes to {} instead of {} (column {}, mask {:#x})",
                    self.p,
                    words[j],
                    v % (1 << self.p),
                    d,
                    x as i64 - (v * d) as i64,
                    self.rhs[j],
                    got[j],
                    a,
                    j,
                    mk
                ));
            }
        }
        Ok(got)
    }
}

/// All words `from`, `from+step`, ... of the full 32-bit range.
fn sweep(c: &mut Case, mk: impl Fn() -> Result<Decoder, String> + Send + Sync + 'static, step: u64) -> R {
    let total = (1u64 << 32) / step;
    let threads = 8u64;
    let mk = std::sync::Arc::new(mk);
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let mk = mk.clone();
            std::thread::spawn(move || {
                no_panic(|| -> Result<u64, String> {
                    let d = mk()?;
                    let w = d.width();
                    let (a, b) = (total * t / threads, total * (t + 1) / threads);
                    let mut buf = vec![];
                    let mut words = vec![0u32; w];
                    let mut i = a;
                    let mut out = 0u64;
                    while i < b {
                        for (j, x) in words.iter_mut().enumerate() {
                            *x = ((i + j as u64) * step) as u32;
                        }
                        let g = d.judge(&words, &mut buf)?;
                        out = out.rotate_left(5) ^ g[0] as u64;
                        i += w as u64;
                    }
                    Ok(out)
                })
                .unwrap_or_else(|p| Err(format!("panic: {}", p)))
            })
        })
        .collect();
    for h in hs {
        let o = h.join().map_err(|_| "thread died".to_string())??;
        c.outcome(&o);
    }
    c.states_by_construction(total);
    c.steps(total);
    c.traces(total);
    Ok(())
}

/// Every value (or a structured set of them) with noises around zero and
/// around the bound.
fn edges(c: &mut Case, d: &Decoder, kv: bool) -> R {
    let p = d.p;
    let dl = 1u64 << (32 - p);
    let size = 1u64 << p;
    let half = dl / 2;
    let mut noises: Vec<i64> = vec![];
    for k in 0..4i64 {
        for b in [0i64, half as i64 - 1, half as i64 / 2] {
            for n in [b - k, b + k, -b + k, -b - k] {
                if 2 * n.unsigned_abs() < dl {
                    noises.push(n);
                }
            }
        }
    }
    noises.sort();
    noises.dedup();
    let dense = if kv { 1 << 9 } else { 1 << 12 };
    let vs: Vec<u64> = if size <= dense {
        (0..size).collect()
    } else {
        let mut v: Vec<u64> = (0..64).chain(size - 64..size).chain(size / 2 - 32..size / 2 + 32).collect();
        for b in 0..p {
            v.push(1 << b);
            v.push((1u64 << b) - 1);
        }
        v
    };
    let w = d.width();
    let mut words = vec![0u32; w];
    let mut buf = vec![];
    let mut k = 0;
    for &v in &vs {
        for &n in &noises {
            words[k % w] = ((v * dl) as i64).wrapping_add(n) as u32;
            k += 1;
            if k % w == 0 {
                let g = d.judge(&words, &mut buf)?;
                c.steps(w as u64);
                c.outcome(&g);
                c.traces(w as u64);
            }
        }
    }
    d.judge(&words, &mut buf)?;
    c.states_by_construction((vs.len() * noises.len()) as u64);
    c.steps(k as u64 % w as u64);
    Ok(())
}

/// Changing one word changes no other column.
fn own_column(c: &mut Case, d: &Decoder) -> R {
    let w = d.width();
    let mut buf = vec![];
    let base: Vec<u32> = (0..w).map(|j| sm(j as u64) as u32 | 1).collect();
    let g0 = d.judge(&base, &mut buf)?;
    for j in 0..w {
        for x in [0u32, 1, u32::MAX, 1 << 31, base[j].wrapping_add(1 << 30)] {
            let mut v = base.clone();
            v[j] = x;
            let g = d.judge(&v, &mut buf)?;
            for i in 0..w {
                if i != j && g[i] != g0[i] {
                    return Err(format!("word {} influences digit {}", j, i));
                }
            }
            c.state(&(j, x));
            c.steps(1);
            c.trace();
        }
    }
    Ok(())
}

/// Very wide answers, boundary columns changed alone.
fn wide(c: &mut Case, d: &Decoder) -> R {
    let w = d.width();
    let mut buf = vec![];
    let dl = 1u64 << (32 - d.p);
    let near: Vec<u32> = (0..w)
        .map(|j| {
            let v = sm(j as u64) % (1 << d.p);
            let n = sm(j as u64 + 77) % dl;
            (v * dl).wrapping_add(n).wrapping_sub(dl / 2) as u32
        })
        .collect();
    let any: Vec<u32> = (0..w).map(|j| sm(j as u64) as u32).collect();
    for base in [near, any] {
        let g0 = d.judge(&base, &mut buf)?;
        c.steps(w as u64);
        for j in [0, 1, 255, 256, 257, 4463, 4464, 65_534, 65_535, 65_536, 65_537, w - 1] {
            let mut v = base.clone();
            v[j] = v[j].wrapping_add(1 << 31);
            let g = d.judge(&v, &mut buf)?;
            if let Some(i) = (0..w).find(|&i| i != j && g[i] != g0[i]) {
                return Err(format!("word {} influences digit {}", j, i));
            }
            c.state(&(j, &v));
            c.steps(w as u64);
            c.trace();
        }
        c.outcome(&g0);
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.workers = 1;
    let full: Vec<usize> = if checked_build() {
        vec![]
    } else if th {
        (1..=31).collect()
    } else {
        vec![1, 2, 5, 8, 10, 11, 16]
    };
    pl.bound(format!("index, build without debug assertions: all 2^32 response words for plaintext bits {:?}", full));
    pl.bound("index and keyword, both builds, plaintext bits 1..31 (keyword 8..31 with debug assertions): every value (2^12 resp. 2^9 at most, else boundary values) x noises around 0, +-bound/2 and +-bound; 2^20 strided words; three secrets; each column alone");
    pl.assume("a response word exactly half a scaling factor away from two values may decode to either");
    for p in full {
        pl.case(format!("all words p={}", p), move |c| {
            sweep(c, move || Decoder::index(p, 1024, 1), 1)
        });
    }
    if th && !checked_build() {
        for p in [8usize, 10, 13] {
            pl.case(format!("all words kv p={}", p), move |c| {
                sweep(c, move || Decoder::kv(p, 1024, 1, keyset(0, 1)[0]), 1)
            });
        }
    }
    pl.bound("scale: answers of 70000 words, 12 boundary columns changed alone");
    for p in [1usize, 9, 13, 31] {
        pl.case(format!("wide p={}", p), move |c| wide(c, &Decoder::index(p, 70_000, 1)?));
        if p > 8 || !checked_build() {
            pl.case(format!("wide kv p={}", p), move |c| {
                wide(c, &Decoder::kv(p, 70_000, 2, keyset(0, 2)[1])?)
            });
        }
    }
    for p in 1..=31usize {
        pl.case(format!("edges p={}", p), move |c| {
            for coin in 0..3 {
                let d = Decoder::index(p, 7, coin)?;
                edges(c, &d, false)?;
                own_column(c, &d)?;
            }
            let d = Decoder::index(p, 1, 2)?;
            edges(c, &d, false)?;
            sweep(c, move || Decoder::index(p, 64, 2), 4093)
        });
        if p < 8 && checked_build() {
            continue;
        }
        pl.case(format!("edges kv p={}", p), move |c| {
            let keys = keyset(0, 2);
            for coin in 0..3 {
                for key in &keys {
                    let d = Decoder::kv(p, 5, coin, *key)?;
                    edges(c, &d, true)?;
                    own_column(c, &d)?;
                }
            }
            sweep(c, move || Decoder::kv(p, 64, 2, keys[1]), 65521)
        });
    }
}
