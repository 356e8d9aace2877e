//! C18: client and server agree on the public parameters.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexParams, KVParams};
use std::collections::HashSet;

enum Any {
    I(Shard),
    K(KVShard),
}
fn build(kv: bool, kind: usize, n: usize, dim: usize, e: usize, p: usize) -> Result<Any, String> {
    if kv {
        let (kvs, _) = kvs_of(&keyset(kind, n), kind, e, p);
        Ok(Any::K(KVShard::new(&kvs, dim, n, e, p).map_err(|e| format!("build: {}", e))?))
    } else {
        Ok(Any::I(
            Shard::from_base64_strings(&b64s(&elements(kind, n, e)), dim, n, e, p)
                .map_err(|e| format!("build: {}", e))?,
        ))
    }
}
impl Any {
    fn cp(&self) -> CommonParams {
        match self {
            Any::I(s) => CommonParams::from(s.get_base_params()),
            Any::K(s) => CommonParams::from(s.get_base_params()),
        }
    }
    fn rhs(&self) -> Vec<Vec<u32>> {
        match self {
            Any::I(s) => s.get_base_params().get_rhs().clone(),
            Any::K(s) => s.get_base_params().get_rhs().clone(),
        }
    }
    fn seed(&self) -> [u8; 32] {
        match self {
            Any::I(s) => s.get_base_params().get_public_seed(),
            Any::K(s) => s.get_base_params().get_public_seed(),
        }
    }
    fn dims(&self) -> (usize, usize) {
        match self {
            Any::I(s) => (s.get_base_params().get_dim(), s.get_base_params().get_total_records()),
            Any::K(s) => (s.get_base_params().get_dim(), s.get_base_params().get_total_records()),
        }
    }
    fn matrix(&self) -> Result<Vec<Vec<u32>>, String> {
        let h = self.dims().1;
        match self {
            Any::I(s) => matrix_of(s, h),
            Any::K(s) => matrix_of(s, h),
        }
    }
}
fn same(a: &CommonParams, b: &CommonParams) -> bool {
    a.as_matrix() == b.as_matrix()
}

/// The hint is the product, the matrix has the declared shape.
fn product(c: &mut Case, kv: bool, kind: usize, n: usize, dim: usize, e: usize, p: usize) -> R {
    let what = format!("kv={} kind={} n={} dim={} e={} p={}", kv, kind, n, dim, e, p);
    let s = build(kv, kind, n, dim, e, p)?;
    let cp = s.cp();
    let a = cp.as_matrix();
    let (d, h) = s.dims();
    if d != dim || (!kv && h != n) {
        return Err(format!("{}: parameters declare dim {} and {} records", what, d, h));
    }
    if a.len() != h || a.iter().any(|col| col.len() != dim) {
        return Err(format!("{}: the derived matrix is not {} x {}", what, dim, h));
    }
    let mx = match &s {
        // what is served is compared for the smaller shapes
        _ if h <= 5000 => s.matrix()?,
        Any::I(_) => elements(kind, n, e).iter().map(|b| digits(b, e, p)).collect(),
        Any::K(x) => (0..h).map(|i| x.get_db().entries.iter().map(|col| col[i]).collect()).collect(),
    };
    let rhs = s.rhs();
    if rhs.len() != width(e, p) {
        return Err(format!("{}: hint of {} columns instead of {}", what, rhs.len(), width(e, p)));
    }
    for j in 0..rhs.len() {
        if rhs[j].len() != dim {
            return Err(format!("{}: hint column of {} words", what, rhs[j].len()));
        }
        for k in 0..dim {
            let mut t = 0u32;
            for i in 0..h {
                t = t.wrapping_add(a[i][k].wrapping_mul(mx[i][j]));
            }
            if rhs[j][k] != t {
                return Err(format!("{}: hint[{}][{}] is {:#x}, the product {:#x}", what, j, k, rhs[j][k], t));
            }
        }
    }
    if !same(&cp, &s.cp()) {
        return Err(format!("{}: deriving twice gives two matrices", what));
    }
    // as a client that received the parameters would
    let other = match &s {
        Any::I(x) => {
            let b: IndexParams = bincode::deserialize(&bincode::serialize(x.get_base_params()).map_err(|e| e.to_string())?)
                .map_err(|e| e.to_string())?;
            let j: IndexParams = serde_json::from_str(&serde_json::to_string(x.get_base_params()).map_err(|e| e.to_string())?)
                .map_err(|e| e.to_string())?;
            [CommonParams::from(&b), CommonParams::from(&j)]
        }
        Any::K(x) => {
            let b: KVParams = bincode::deserialize(&bincode::serialize(x.get_base_params()).map_err(|e| e.to_string())?)
                .map_err(|e| e.to_string())?;
            let j: KVParams = serde_json::from_str(&serde_json::to_string(x.get_base_params()).map_err(|e| e.to_string())?)
                .map_err(|e| e.to_string())?;
            [CommonParams::from(&b), CommonParams::from(&j)]
        }
    };
    for o in &other {
        if !same(o, &cp) {
            return Err(format!("{}: transmitted parameters derive another matrix", what));
        }
    }
    c.steps((rhs.len() * dim) as u64 + 4);
    c.state(&(a, &rhs));
    c.outcome(&rhs);
    c.trace();
    Ok(())
}

/// Derivation does not depend on history or thread.
fn determinism(c: &mut Case, kv: bool) -> R {
    let ss: Vec<Any> = [(3usize, 4usize), (3, 5), (4, 4), (1, 1), (9, 2)]
        .iter()
        .map(|&(n, d)| build(kv, 0, n, d, 18, 9))
        .collect::<Result<_, _>>()?;
    let first: Vec<Vec<Vec<u32>>> = ss.iter().map(|s| s.cp().as_matrix().to_vec()).collect();
    c.explore(|c, ch| {
        for _ in 0..4 {
            let i = ch.choose(ss.len());
            if ss[i].cp().as_matrix() != &first[i][..] {
                return Err(format!("deriving matrix {} again gives another one", i));
            }
            c.steps(1);
        }
        c.trace();
        Ok(())
    })?;
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8)
            .map(|t| {
                let (ss, first) = (&ss, &first);
                sc.spawn(move || (0..ss.len() * 20).all(|k| ss[(k + t) % ss.len()].cp().as_matrix() == &first[(k + t) % ss.len()][..]))
            })
            .collect();
        for h in hs {
            if !h.join().unwrap_or(false) {
                return Err("threads derive different matrices".to_string());
            }
        }
        Ok(())
    })?;
    c.steps(800);
    c.state(&first);
    Ok(())
}

/// Every bit of the seed matters, every bit of every entry is used, nothing
/// is repeated.
fn seeds(c: &mut Case, kv: bool, base: u8, pairs: bool) -> R {
    let n = 4;
    let dim = 8;
    let keys = keyset(0, n);
    let (kvs, _) = kvs_of(&keys, 0, 18, 9);
    let el = b64s(&elements(0, n, 18));
    let mut seen: HashSet<Vec<Vec<u32>>> = HashSet::new();
    let mut cols: HashSet<Vec<u32>> = HashSet::new();
    let (mut or, mut and): (Vec<Vec<u32>>, Vec<Vec<u32>>) = (vec![], vec![]);
    let mut list: Vec<[u8; 32]> = vec![[base; 32]];
    for bit in 0..256 {
        let mut s = [base; 32];
        s[bit / 8] ^= 1 << (bit % 8);
        list.push(s);
        if pairs {
            for b2 in 0..bit {
                let mut s = s;
                s[b2 / 8] ^= 1 << (b2 % 8);
                list.push(s);
            }
        }
    }
    if !pairs {
        for byte in 0..32 {
            for v in 0..=255u8 {
                let mut s = [base; 32];
                s[byte] = v;
                list.push(s);
            }
        }
    }
    list.sort();
    list.dedup();
    // a filter seed that works, then the seed wanted
    let good = good_filter_seed(&keys)?;
    for want in &list {
        let s = {
            let _env = if kv {
                Env::install(&[], &[good, *want])
            } else {
                Env::install(&[], &[*want])
            };
            if kv {
                Any::K(KVShard::new(&kvs, dim, n, 18, 9).map_err(|e| format!("build: {}", e))?)
            } else {
                Any::I(Shard::from_base64_strings(&el, dim, n, 18, 9).map_err(|e| format!("build: {}", e))?)
            }
        };
        if s.seed() != *want {
            // C19's concern; here only distinct seeds are needed
            c.outcome(&"other seed");
        }
        let a = s.cp().as_matrix().to_vec();
        if or.is_empty() {
            or = a.clone();
            and = a.clone();
        }
        for i in 0..a.len() {
            for k in 0..dim {
                or[i][k] |= a[i][k];
                and[i][k] &= a[i][k];
            }
            if !cols.insert(a[i].clone()) {
                return Err(format!("seed {:x?}: column {} of the matrix occurs twice", want, i));
            }
        }
        for k in 0..dim {
            for l in 0..k {
                if (0..a.len()).all(|i| a[i][k] == a[i][l]) {
                    return Err(format!("seed {:x?}: rows {} and {} of the matrix coincide", want, l, k));
                }
            }
        }
        c.state(&(want, &a));
        if !seen.insert(a) {
            return Err(format!("seed {:x?} derives the same matrix as another seed", want));
        }
        c.steps(1);
        c.trace();
    }
    for i in 0..or.len() {
        for k in 0..dim {
            if or[i][k] != u32::MAX || and[i][k] != 0 {
                return Err(format!(
                    "entry [{}][{}]: over {} seeds bits {:#x} are never set, bits {:#x} never clear",
                    k,
                    i,
                    list.len(),
                    !or[i][k],
                    and[i][k]
                ));
            }
        }
    }
    c.sample(format!("{} seeds derive {} distinct matrices; every bit of every entry takes both values", list.len(), seen.len()));
    Ok(())
}
pub fn good_filter_seed(keys: &[[u64; 4]]) -> Result<[u8; 32], String> {
    for i in 0..200u64 {
        let mut s = [0u8; 32];
        for k in 0..4 {
            s[8 * k..8 * k + 8].copy_from_slice(&sm(i * 4 + k as u64 + 5).to_le_bytes());
        }
        if xorf::BinaryFuseP32::from_slice(s, keys, &vec![0; keys.len()], 0, 1024).is_ok() {
            return Ok(s);
        }
    }
    Err("no filter seed of 200 works".into())
}
/// Larger matrices: no value is repeated more often than chance.
fn spread(c: &mut Case, n: usize, dim: usize) -> R {
    let s = build(false, 0, n, dim, 8, 8)?;
    let cp = s.cp();
    let a = cp.as_matrix();
    let mut all: Vec<u32> = a.iter().flatten().cloned().collect();
    let total = all.len() as f64;
    all.sort();
    let mut dup = 0u64;
    for w in all.windows(2) {
        dup += (w[0] == w[1]) as u64;
    }
    let expect = total * total / 2.0 / 4294967296.0;
    if dup as f64 > expect + 8.0 * expect.sqrt() + 4.0 {
        return Err(format!("{} x {}: {} equal entries, expected about {:.1}", dim, n, dup, expect));
    }
    let mut ones = [0u64; 32];
    for x in &all {
        for b in 0..32 {
            ones[b] += (x >> b & 1) as u64;
        }
    }
    for b in 0..32 {
        if (ones[b] as f64 - total / 2.0).abs() > 4.0 * total.sqrt() + 2.0 {
            return Err(format!("{} x {}: bit {} is set in {} of {} entries", dim, n, b, ones[b], total));
        }
    }
    c.steps(all.len() as u64);
    c.state(&(n, dim));
    c.outcome(&dup);
    c.trace();
    c.sample(format!("{} x {}: {} equal entries, {:.1} expected", dim, n, dup, expect));
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let (nn, dd) = if th { (40, 40) } else { (24, 24) };
    pl.bound(format!("hint = matrix x database for every number of records and dimension up to {} x {}, index and keyword, 5 encodings; large shapes to 3000 x 64 and 20 x 2048, single shapes beyond 2^16 rows, columns and dimensions", nn, dd));
    pl.bound(format!("derivations: all histories of 4 derivations of 5 parameter sets; every single seed bit and byte value around {} base seeds{}", if th { 3 } else { 2 }, if th { ", all pairs of seed bits" } else { "" }));
    pl.assume("equal entries and bit balance of one matrix are accepted up to eight standard deviations");
    for kv in [false, true] {
        for n in 1..=nn {
            pl.case(format!("product kv={} n={}", kv, n), move |c| {
                for dim in 1..=dd {
                    for (kind, e, p) in [(0usize, 8usize, 8usize), (1, 20, 9), (0, 33, 11), (2, 62, 31), (5, 1, 10)] {
                        product(c, kv, kind, n, dim, e, p)?;
                    }
                }
                Ok(())
            });
        }
        for (n, dim, e, p) in [(3000usize, 64usize, 16usize, 9usize), (20, 2048, 256, 10), (500, 500, 30, 10), (257, 1, 9, 9), (1, 1024, 8, 8)] {
            pl.case(format!("large product kv={} n={} dim={}", kv, n, dim), move |c| product(c, kv, 0, n, dim, e, p));
        }
        for (n, dim, e, p) in [(70_001usize, 2usize, 9usize, 8usize), (1, 70_001, 8, 8), (2, 1, 70_000 * 8, 8), (5, 9000, 8, 8)] {
            pl.case(format!("scale product kv={} n={} dim={} e={}", kv, n, dim, e), move |c| product(c, kv, 0, n, dim, e, p));
        }
        pl.case(format!("determinism kv={}", kv), move |c| determinism(c, kv));
        for base in if th { vec![0u8, 0xff, 0x5a] } else { vec![0u8, 0x5a] } {
            pl.case(format!("seeds kv={} base={}", kv, base), move |c| seeds(c, kv, base, false));
            if th {
                pl.case(format!("seed pairs kv={} base={}", kv, base), move |c| seeds(c, kv, base, true));
            }
        }
    }
    for (n, dim) in [(64usize, 64usize), (1, 4096), (4096, 1), (1000, 300), (17, 1023), (1 << 12, 1 << 9), (70_001, 1), (1, 70_001), (2, 40_000), (300_000, 2)] {
        pl.case(format!("spread n={} dim={}", n, dim), move |c| spread(c, n, dim));
    }
}
