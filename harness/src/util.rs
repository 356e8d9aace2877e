//! The controlled environment, boring reference functions, and helpers that
//! drive the public API.
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::OnceLock;

use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{
    FilterParams, IndexDatabase, IndexParams, KVDatabase, KVParams, KeyValue,
};

pub type IQP = QueryParams<IndexDatabase, EmptyAuxParams>;
pub type KQP = QueryParams<KVDatabase, FilterParams>;

// ---------------------------------------------------------------- environment

#[derive(Default)]
pub struct EnvState {
    /// Answers to requests that are read as 32-bit words.
    pub words: Vec<u32>,
    pub wpos: usize,
    /// What words after the tape are: `Some(w)` a constant, `None` the stream.
    pub then: Option<u32>,
    /// Answers to 32-byte requests.
    pub seeds: Vec<[u8; 32]>,
    pub spos: usize,
    pub calls: u64,
    /// Fail this request (counted from 0) and all later ones.
    pub fail_at: Option<u64>,
    pub log: Vec<usize>,
}
pub struct Env(pub Rc<RefCell<EnvState>>);
impl Env {
    /// Installs a controlled generator on this thread.
    pub fn install(words: &[u32], seeds: &[[u8; 32]]) -> Env {
        let st = Rc::new(RefCell::new(EnvState {
            words: words.to_vec(),
            seeds: seeds.to_vec(),
            ..Default::default()
        }));
        let s2 = st.clone();
        getrandom::set_source(Some(Box::new(move |d: &mut [u8]| {
            let mut s = s2.borrow_mut();
            let n = s.calls;
            s.calls += 1;
            if s.fail_at.map_or(false, |f| n >= f) {
                return false;
            }
            if s.log.len() < 4096 {
                s.log.push(d.len());
            }
            if d.len() == 32 {
                if s.spos < s.seeds.len() {
                    d.copy_from_slice(&s.seeds[s.spos]);
                    s.spos += 1;
                } else {
                    getrandom::fallback_fill(d);
                }
                return true;
            }
            for ch in d.chunks_mut(4) {
                let k = ch.len();
                if s.wpos < s.words.len() {
                    ch.copy_from_slice(&s.words[s.wpos].to_le_bytes()[..k]);
                    s.wpos += 1;
                } else if let Some(w) = s.then {
                    ch.copy_from_slice(&w.to_le_bytes()[..k]);
                    s.wpos += 1;
                } else {
                    getrandom::fallback_fill(ch);
                    s.wpos += 1;
                }
            }
            true
        })));
        Env(st)
    }
    pub fn set_words(&self, words: &[u32], then: Option<u32>) {
        let mut s = self.0.borrow_mut();
        s.words.clear();
        s.words.extend_from_slice(words);
        s.wpos = 0;
        s.then = then;
    }
    pub fn words_used(&self) -> usize {
        self.0.borrow().wpos
    }
    pub fn seeds_used(&self) -> usize {
        self.0.borrow().spos
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        getrandom::set_source(None);
    }
}

/// Initializes process- and thread-wide lazies of the dependencies so that
/// their one-time draws do not land on an explored tape.
pub fn prewarm() {
    let _ = xorf::BinaryFuseP32::from_slice([7; 32], &[[1, 2, 3, 4]], &[1], 0, 1024);
}

pub fn minus1() -> u32 {
    u32::MAX
}

/// Generator words that make the sampler return 0, 1 and -1 (both for the
/// secret and for the error), found by asking the code.
pub fn coin_words() -> [u32; 3] {
    static W: OnceLock<[u32; 3]> = OnceLock::new();
    // On a thread of its own: the caller may have a generator installed.
    *W.get_or_init(|| {
        crate::engine::fresh(1, calibrate).unwrap_or([0x1111_1111, 0x7777_7777, 0xdddd_dddd])
    })
}
fn calibrate() -> [u32; 3] {
    let db = IndexDatabase::new(&["AA==".to_string()], 1, 8, 8).expect("calibration database");
    let ip = IndexParams::new(&db, 1);
    let cp = cp_from(&[vec![16u32]]);
    let mut found: [Option<u32>; 3] = [None; 3];
    let cands: Vec<u32> = (0..48u32)
        .map(|i| i.wrapping_mul(0x0555_5555).wrapping_add(0x0111_1111))
        .collect();
    for &w in &cands {
        let env = Env::install(&[], &[]);
        env.set_words(&[w, w], Some(w.rotate_left(7) ^ 0x55aa_1234));
        let mut qp = generate_index_query_params(&cp, &ip).expect("calibration");
        let used = env.words_used();
        drop(env);
        if used != 2 {
            continue;
        }
        let q = match qp.generate_query(0) {
            Ok(q) => q,
            Err(_) => continue,
        };
        // lhs = 16 s + e, plus 2^24
        let v = q.as_slice()[0].wrapping_sub(1 << 24) as i32;
        let k = match v {
            0 => 0,
            17 => 1,
            -17 => 2,
            _ => continue,
        };
        if found[k].is_none() {
            found[k] = Some(w);
        }
    }
    // A word for -1 may be missing only because of a refused query; any word
    // is a legitimate answer of the generator, so fall back to fixed ones.
    [
        found[0].unwrap_or(0x1111_1111),
        found[1].unwrap_or(0x7777_7777),
        found[2].unwrap_or(0xdddd_dddd),
    ]
}
/// Words for a sequence of wanted coins (0, 1, 2 standing for 0, 1, -1).
pub fn coins(xs: &[usize]) -> Vec<u32> {
    let w = coin_words();
    xs.iter().map(|&x| w[x]).collect()
}
pub fn word_of(x: u32) -> u32 {
    let w = coin_words();
    match x {
        0 => w[0],
        1 => w[1],
        _ => w[2],
    }
}

// ---------------------------------------------------------------- wire objects

pub fn cp_from(cols: &[Vec<u32>]) -> CommonParams {
    bincode::deserialize(&bincode::serialize(&cols.to_vec()).unwrap())
        .expect("CommonParams from its columns")
}
pub fn query_from(v: &[u32]) -> Query {
    bincode::deserialize(&bincode::serialize(&v.to_vec()).unwrap()).expect("Query from its words")
}
pub fn resp_from(v: &[u32]) -> Response {
    bincode::deserialize(&bincode::serialize(&v.to_vec()).unwrap())
        .expect("Response from its words")
}
pub fn resp_of(b: &[u8]) -> Result<Response, String> {
    bincode::deserialize(b).map_err(|e| format!("response not readable: {}", e))
}

pub trait Server: Send + Sync {
    fn answer(&self, q: &Query) -> Result<Vec<u8>, String>;
    fn answer_words(&self, q: &[u32]) -> Result<Vec<u32>, String> {
        let b = self.answer(&query_from(q))?;
        Ok(resp_of(&b)?.as_slice().to_vec())
    }
}
impl Server for Shard {
    fn answer(&self, q: &Query) -> Result<Vec<u8>, String> {
        self.respond(q)
            .map_err(|e| format!("respond failed: {}", e))
    }
}
impl Server for KVShard {
    fn answer(&self, q: &Query) -> Result<Vec<u8>, String> {
        self.respond(q)
            .map_err(|e| format!("respond failed: {}", e))
    }
}

/// The database matrix as the server uses it, row by row.
pub fn matrix_of(s: &dyn Server, height: usize) -> Result<Vec<Vec<u32>>, String> {
    let mut rows = vec![];
    let mut q = vec![0u32; height];
    for i in 0..height {
        q[i] = 1;
        rows.push(s.answer_words(&q)?);
        q[i] = 0;
    }
    Ok(rows)
}

// ---------------------------------------------------------------- reference

pub fn bit(bytes: &[u8], i: usize) -> u32 {
    if i / 8 < bytes.len() {
        ((bytes[i / 8] >> (i % 8)) & 1) as u32
    } else {
        0
    }
}
pub fn nbytes(elem_bits: usize) -> usize {
    (elem_bits + 7) / 8
}
pub fn width(elem_bits: usize, p: usize) -> usize {
    (elem_bits + p - 1) / p
}
/// Little-endian split of an element into digits of p bits.
pub fn digits(bytes: &[u8], elem_bits: usize, p: usize) -> Vec<u32> {
    (0..width(elem_bits, p))
        .map(|d| {
            let mut v = 0u32;
            for k in 0..p {
                let i = d * p + k;
                if i < elem_bits {
                    v |= bit(bytes, i) << k;
                }
            }
            v
        })
        .collect()
}
pub fn b64(b: &[u8]) -> String {
    base64::encode(b)
}
pub fn b64s(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|e| b64(e)).collect()
}
pub fn delta(p: usize) -> u32 {
    ((1u64 << 32) >> p) as u32
}
/// Worst-case noise of m unit errors stays below half the scaling factor.
pub fn noise_ok(height: usize, p: usize) -> bool {
    p < 32 && (height as u128) * ((1u128 << p) - 1) < (1u128 << 31 >> p)
}
pub fn max_height(p: usize) -> usize {
    let half = 1u128 << 31 >> p;
    ((half - 1) / ((1u128 << p) - 1)) as usize
}
pub fn dot(a: &[u32], b: &[u32]) -> u32 {
    let mut s: u64 = 0;
    for i in 0..a.len() {
        s = (s + a[i] as u64 * b[i] as u64) & 0xffff_ffff;
    }
    s as u32
}
pub fn sm(x: u64) -> u64 {
    let mut z = x
        .wrapping_mul(0x9e37_79b9_7f4a_7c15)
        .wrapping_add(0x1234_5678_9abc_def1);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
/// Deterministic element contents of various shapes; bits beyond elem_bits
/// are zero.
pub const KINDS: usize = 8;
pub fn content(kind: usize, i: usize, elem_bits: usize) -> Vec<u8> {
    let n = nbytes(elem_bits);
    let mut v: Vec<u8> = (0..n)
        .map(|k| match kind {
            0 => (sm((i as u64) << 20 | k as u64) >> 11) as u8,
            1 => 0xff,
            2 => 0,
            3 => {
                if k == 0 {
                    1 + (i as u8 & 0x7f)
                } else {
                    0
                }
            }
            4 => {
                if k + 1 == n {
                    0x80
                } else {
                    0
                }
            }
            5 => 0x55,
            6 => 0xaa ^ (i as u8),
            _ => (i as u8).wrapping_mul(31).wrapping_add(k as u8),
        })
        .collect();
    mask_top(&mut v, elem_bits);
    v
}
pub fn mask_top(v: &mut [u8], elem_bits: usize) {
    if elem_bits % 8 != 0 {
        let n = v.len();
        v[n - 1] &= ((1u32 << (elem_bits % 8)) - 1) as u8;
    }
}
pub fn elements(kind: usize, m: usize, elem_bits: usize) -> Vec<Vec<u8>> {
    (0..m).map(|i| content(kind, i, elem_bits)).collect()
}

/// One complete index retrieval under the installed environment, judged
/// against the stored element.
pub fn index_roundtrip(
    c: &mut crate::engine::Case,
    shard: &Shard,
    cp: &CommonParams,
    stored: &[u8],
    elem_bits: usize,
    p: usize,
    row: usize,
) -> Result<(), String> {
    let bp = shard.get_base_params();
    let mut qp = generate_index_query_params(cp, bp).map_err(|e| format!("query params: {}", e))?;
    let q = qp
        .generate_query(row)
        .map_err(|e| format!("generate_query({}): {}", row, e))?;
    let b = shard.answer(&q)?;
    let r = resp_of(&b)?;
    let want = digits(stored, elem_bits, p);
    let got = qp.parse_resp_as_row(&r);
    if got != want {
        return Err(format!(
            "row {}: decoded digits {:?}, stored {:?}",
            row,
            trunc(&got),
            trunc(&want)
        ));
    }
    let gb = qp.parse_resp_as_bytes(&r);
    if gb != stored {
        return Err(format!(
            "row {}: decoded bytes {:?}, stored {:?}",
            row,
            trunc(&gb),
            trunc(stored)
        ));
    }
    let gs = qp.parse_resp_as_base64(&r);
    if gs != b64(stored) {
        return Err(format!("row {}: base64 {:?} != {:?}", row, gs, b64(stored)));
    }
    c.steps(5);
    c.state(&(row, q.as_slice(), r.as_slice()));
    c.outcome(&gb);
    c.trace();
    Ok(())
}

pub fn kv_roundtrip(
    c: &mut crate::engine::Case,
    shard: &dyn Server,
    params: &KVParams,
    cp: &CommonParams,
    key: &[u64; 4],
    value: &[u32],
    stored: Option<&[u8]>,
) -> Result<(), String> {
    let mut qp =
        generate_kv_query_params(cp, params).map_err(|e| format!("query params: {}", e))?;
    let q = qp
        .generate_query(key)
        .map_err(|e| format!("generate_query({:x?}): {}", key, e))?;
    let b = shard.answer(&q)?;
    let r = resp_of(&b)?;
    let got = qp
        .parse_resp_as_row(&r, key)
        .map_err(|e| format!("parse: {}", e))?;
    if got != value {
        return Err(format!(
            "key {:x?}: decoded digits {:?}, stored {:?}",
            key,
            trunc(&got),
            trunc(value)
        ));
    }
    if let Some(stored) = stored {
        let gb = qp
            .parse_resp_as_bytes(&r, key)
            .map_err(|e| format!("parse bytes: {}", e))?;
        if gb != stored {
            return Err(format!(
                "key {:x?}: decoded bytes {:?}, stored {:?}",
                key,
                trunc(&gb),
                trunc(stored)
            ));
        }
        let gs = qp
            .parse_resp_as_base64(&r, key)
            .map_err(|e| format!("parse base64: {}", e))?;
        if gs != b64(stored) {
            return Err(format!(
                "key {:x?}: base64 {:?} != {:?}",
                key,
                gs,
                b64(stored)
            ));
        }
        c.steps(2);
    }
    c.steps(4);
    c.state(&(key, q.as_slice(), r.as_slice()));
    c.outcome(&got);
    c.trace();
    Ok(())
}

pub fn trunc<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().take(12).cloned().collect()
}

/// Key sets that stress word order, equality of words and closeness.
pub fn keyset(kind: usize, n: usize) -> Vec<[u64; 4]> {
    let mut out: Vec<[u64; 4]> = vec![];
    let mut push = |k: [u64; 4], out: &mut Vec<[u64; 4]>| {
        if out.len() < n {
            out.push(k)
        }
    };
    match kind {
        // pseudo-random, as hashed keys are
        0 => {
            for i in 0..n as u64 {
                push(
                    [sm(4 * i), sm(4 * i + 1), sm(4 * i + 2), sm(4 * i + 3)],
                    &mut out,
                )
            }
        }
        // small counters in the first word
        1 => {
            for i in 0..n as u64 {
                push([i, 0, 0, 0], &mut out)
            }
        }
        // counters in the last word
        2 => {
            for i in 0..n as u64 {
                push([0, 0, 0, i], &mut out)
            }
        }
        // all orders of four words, for several word sets
        3 => {
            let mut base = 1u64;
            while out.len() < n {
                let w = [base, base + 1, base + 2, base + 3];
                for p in perms4() {
                    push([w[p[0]], w[p[1]], w[p[2]], w[p[3]]], &mut out);
                }
                base += 4;
            }
        }
        // repeated words: aabb, abab, ...
        4 => {
            let mut a = 1u64;
            while out.len() < n {
                let b = a.wrapping_mul(0x0101_0101_0101_0101);
                for k in [
                    [a, a, b, b],
                    [a, b, a, b],
                    [b, a, a, b],
                    [a, b, b, a],
                    [b, a, b, a],
                    [b, b, a, a],
                    [a, a, a, b],
                    [a, a, b, a],
                    [a, b, a, a],
                    [b, a, a, a],
                ] {
                    // a == b only when a == 0
                    push(k, &mut out);
                }
                a += 1;
            }
        }
        // one bit set, every position
        5 => {
            for i in 0..256usize {
                let mut k = [0u64; 4];
                k[i / 64] = 1 << (i % 64);
                push(k, &mut out);
            }
            for i in 0..n as u64 {
                push([u64::MAX - i, u64::MAX, u64::MAX, u64::MAX], &mut out);
            }
        }
        // constant words, as the repository's own tests use: [x; 4]
        6 => {
            for i in 0..n as u64 {
                let x = if i < 4 { i.wrapping_sub(2) } else { sm(i) };
                push([x; 4], &mut out)
            }
        }
        // pairs that differ in one bit of one word
        _ => {
            let mut i = 0u64;
            while out.len() < n {
                let k = [sm(i), sm(i + 1), sm(i + 2), sm(i + 3)];
                push(k, &mut out);
                let mut k2 = k;
                k2[(i % 4) as usize] ^= 1 << (i % 64);
                push(k2, &mut out);
                i += 5;
            }
        }
    }
    out
}
pub const KEYKINDS: usize = 8;
pub fn perms4() -> Vec<[usize; 4]> {
    let mut v = vec![];
    for a in 0..4 {
        for b in 0..4 {
            for c in 0..4 {
                for d in 0..4 {
                    if a != b && a != c && a != d && b != c && b != d && c != d {
                        v.push([a, b, c, d]);
                    }
                }
            }
        }
    }
    v
}
pub fn kvs_of(
    keys: &[[u64; 4]],
    kind: usize,
    elem_bits: usize,
    p: usize,
) -> (Vec<KeyValue>, Vec<Vec<u8>>) {
    let mut kvs = vec![];
    let mut el = vec![];
    for (i, k) in keys.iter().enumerate() {
        let b = content(kind, i, elem_bits);
        kvs.push(KeyValue {
            key: *k,
            value: digits(&b, elem_bits, p),
        });
        el.push(b);
    }
    (kvs, el)
}

// ---------------------------------------------------------------- scratch

pub struct Scratch {
    pub path: String,
}
/// A directory of our own under /tmp, removed when dropped.
pub fn scratch(tag: &str) -> Result<Scratch, String> {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let path = format!(
        "/tmp/mc-{}-{}-{}",
        tag,
        std::process::id(),
        N.fetch_add(1, Ordering::SeqCst)
    );
    std::fs::create_dir_all(&path).map_err(|e| format!("harness: {}", e))?;
    Ok(Scratch { path })
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.path.starts_with("/tmp/mc-") {
            let _ = std::fs::remove_dir_all(&self.path);
        }
    }
}

/// Pairs of distinct keys with the same 64-bit hash under the filter seed
/// `TWIN_SEED` (found offline by a four-list birthday search of 2^23 work;
/// any pair of last words can be appended). Should the hash change they are
/// ordinary keys.
pub const TWIN_SEED: [u8; 32] = [7; 32];
pub fn twins(i: usize, tail: [u64; 2]) -> ([u64; 4], [u64; 4]) {
    const T: [[u64; 4]; 7] = [
        [5607265, 6538855, 5601597, 4170369],
        [8264203, 6057505, 6647667, 2853026],
        [8362092, 1484041, 3828475, 887911],
        [747423, 1637564, 634084, 4320784],
        [6821279, 2330806, 2134324, 7410103],
        [2445456, 3260357, 31745, 4180749],
        [4326314, 534338, 4094871, 1407106],
    ];
    let t = T[i % T.len()];
    ([t[0], t[1], tail[0], tail[1]], [t[2], t[3], tail[0], tail[1]])
}
