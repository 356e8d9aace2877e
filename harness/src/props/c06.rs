//! C06: query parameters yield at most one query.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use serde::{de::DeserializeOwned, Serialize};
use std::sync::Arc;

/// What the exploration needs of a parameter set, index or keyword.
trait Kind: Clone + Serialize + DeserializeOwned + 'static {
    type T: Copy;
    fn make(w: &World<Self>, set: usize) -> Result<Self, String>;
    fn gen(&mut self, t: Self::T) -> Result<Vec<u32>, String>;
    fn decode(&self, t: Self::T, r: &Response) -> Result<Vec<u32>, String>;
    fn used(&self) -> bool;
}
struct World<K: Kind> {
    cp: CommonParams,
    index: Option<Shard>,
    kv: Option<KVShard>,
    coins: Vec<Vec<u32>>,
    valid: Vec<K::T>,
    invalid: Vec<K::T>,
    /// Response (to the golden query of set 0 or 1) and content per target.
    golden: Vec<Vec<Vec<u32>>>,
    resp: Vec<Vec<Vec<u32>>>,
    content: Vec<Option<Vec<u32>>>,
}
impl Kind for IQP {
    type T = usize;
    fn make(w: &World<Self>, set: usize) -> Result<Self, String> {
        let env = Env::install(&w.coins[set], &[]);
        let r = generate_index_query_params(&w.cp, w.index.as_ref().unwrap().get_base_params())
            .map_err(|e| e.to_string());
        drop(env);
        r
    }
    fn gen(&mut self, t: usize) -> Result<Vec<u32>, String> {
        self.generate_query(t).map(|q| q.as_slice().to_vec()).map_err(|e| e.to_string())
    }
    fn decode(&self, _: usize, r: &Response) -> Result<Vec<u32>, String> {
        let row = self.parse_resp_as_row(r);
        let _ = self.parse_resp_as_bytes(r);
        let _ = self.parse_resp_as_base64(r);
        Ok(row)
    }
    fn used(&self) -> bool {
        self.used
    }
}
impl Kind for KQP {
    type T = [u64; 4];
    fn make(w: &World<Self>, set: usize) -> Result<Self, String> {
        let env = Env::install(&w.coins[set], &[]);
        let r = generate_kv_query_params(&w.cp, w.kv.as_ref().unwrap().get_base_params())
            .map_err(|e| e.to_string());
        drop(env);
        r
    }
    fn gen(&mut self, t: [u64; 4]) -> Result<Vec<u32>, String> {
        self.generate_query(&t).map(|q| q.as_slice().to_vec()).map_err(|e| e.to_string())
    }
    fn decode(&self, t: [u64; 4], r: &Response) -> Result<Vec<u32>, String> {
        let row = self.parse_resp_as_row(r, &t).map_err(|e| e.to_string())?;
        let _ = self.parse_resp_as_bytes(r, &t).map_err(|e| e.to_string())?;
        let _ = self.parse_resp_as_base64(r, &t).map_err(|e| e.to_string())?;
        Ok(row)
    }
    fn used(&self) -> bool {
        self.used
    }
}

fn finish<K: Kind>(w: &mut World<K>) -> Result<(), String> {
    for set in 0..w.coins.len() {
        let mut g = vec![];
        let mut rs = vec![];
        for &t in &w.valid {
            let mut k = K::make(w, set)?;
            let q = k.gen(t).map_err(|e| format!("fresh parameters refuse a valid target: {}", e))?;
            let r = match (&w.index, &w.kv) {
                (Some(s), _) => s.answer_words(&q)?,
                (_, Some(s)) => s.answer_words(&q)?,
                _ => unreachable!(),
            };
            g.push(q);
            rs.push(r);
        }
        w.golden.push(g);
        w.resp.push(rs);
    }
    Ok(())
}
fn coin_sets(n: usize) -> Vec<Vec<u32>> {
    (0..2u64)
        .map(|k| coins(&(0..n).map(|i| (sm(i as u64 * 2 + k) % 3) as usize).collect::<Vec<_>>()))
        .collect()
}
fn index_world(p: usize) -> Result<World<IQP>, String> {
    let (m, dim, e) = (4, 3, 2 * p);
    let el = elements(0, m, e);
    let s = Shard::from_base64_strings(&b64s(&el), dim, m, e, p).map_err(|e| e.to_string())?;
    let cp = CommonParams::from(s.get_base_params());
    let valid = vec![1usize, m - 1, 0];
    let mut w = World {
        cp,
        index: Some(s),
        kv: None,
        coins: coin_sets(dim + m),
        content: valid.iter().map(|&t| Some(digits(&el[t], e, p))).collect(),
        valid,
        invalid: vec![m, usize::MAX],
        golden: vec![],
        resp: vec![],
    };
    finish(&mut w)?;
    Ok(w)
}
fn kv_world(p: usize) -> Result<World<KQP>, String> {
    let (n, dim, e) = (2, 3, 2 * p);
    let keys = keyset(0, n + 1);
    let (kvs, _) = kvs_of(&keys[..n], 0, e, p);
    let s = KVShard::new(&kvs, dim, n, e, p).map_err(|e| e.to_string())?;
    let cp = CommonParams::from(s.get_base_params());
    let h = cp.as_matrix().len();
    let mut w = World {
        cp,
        index: None,
        kv: Some(s),
        coins: coin_sets(dim + h),
        content: vec![Some(kvs[0].value.clone()), Some(kvs[1].value.clone()), None],
        valid: keys.clone(),
        invalid: vec![],
        golden: vec![],
        resp: vec![],
    };
    finish(&mut w)?;
    Ok(w)
}

struct Inst<K> {
    q: K,
    set: usize,
    /// Whether the original has produced a query (None: a copy made before
    /// use, which may or may not be allowed its own).
    used: Option<bool>,
    /// How it came about, for messages.
    how: &'static str,
}

/// One operation on one instance, judged. Returns what was observed.
fn step<K: Kind>(
    w: &World<K>,
    xs: &mut Vec<Inst<K>>,
    i: usize,
    op: usize,
) -> Result<(String, u64), String> {
    let ngen = w.valid.len();
    let ninv = w.invalid.len();
    let desc;
    let obs;
    if op < ngen {
        let x = &mut xs[i];
        let r = x.q.gen(w.valid[op]);
        desc = format!("query({}) on {} {}", op, x.how, i);
        match (x.used, &r) {
            (Some(true), Ok(_)) => {
                return Err(format!("{}: a second query is produced", desc));
            }
            (Some(false), Err(e)) => {
                return Err(format!("{}: the first query is refused: {}", desc, e));
            }
            _ => {}
        }
        if let Ok(q) = &r {
            if *q != w.golden[x.set][op] {
                return Err(format!("{}: not the query of this parameter set", desc));
            }
            x.used = Some(true);
        }
        if x.used == Some(true) && !x.q.used() {
            return Err(format!("{}: not marked used", desc));
        }
        obs = h64(&r.is_ok());
    } else if op < ngen + ninv {
        let x = &mut xs[i];
        desc = format!("query outside the database on {} {}", x.how, i);
        if x.q.gen(w.invalid[op - ngen]).is_ok() {
            return Err(format!("{}: succeeds", desc));
        }
        obs = 2;
    } else {
        match op - ngen - ninv {
            0 => {
                let x = &mut xs[i];
                desc = format!("decode on {} {}", x.how, i);
                let before = x.q.used();
                for (k, &t) in w.valid.iter().enumerate() {
                    let got = x.q.decode(t, &resp_from(&w.resp[x.set][k]))?;
                    if w.content[k].as_ref().map_or(false, |c| *c != got) {
                        return Err(format!("{}: target {} decodes to {:?}", desc, k, got));
                    }
                }
                if x.q.used() != before {
                    return Err(format!("{}: changes the used mark", desc));
                }
                obs = 3;
            }
            1 => {
                desc = format!("clone of {}", i);
                let x = &xs[i];
                let y = Inst {
                    q: x.q.clone(),
                    set: x.set,
                    used: if x.used == Some(true) { Some(true) } else { None },
                    how: "clone",
                };
                xs.push(y);
                obs = 4;
            }
            k => {
                // The restored object takes the place of the saved one.
                let x = &mut xs[i];
                desc = format!("save and restore {} ({})", i, if k == 2 { "binary" } else { "text" });
                let b = if k == 2 {
                    bincode::serialize(&x.q).map_err(|e| e.to_string())?
                } else {
                    serde_json::to_vec(&x.q).map_err(|e| e.to_string())?
                };
                x.q = if k == 2 {
                    bincode::deserialize(&b).map_err(|e| e.to_string())?
                } else {
                    serde_json::from_slice(&b).map_err(|e| e.to_string())?
                };
                x.how = "restored";
                obs = 5 + k as u64;
            }
        }
    }
    // No operation may change the mark of an instance against the model.
    for (k, x) in xs.iter().enumerate() {
        match x.used {
            Some(true) if !x.q.used() => {
                return Err(format!("after {}: instance {} is no longer marked used", desc, k))
            }
            Some(false) if x.q.used() => {
                return Err(format!("after {}: instance {} is marked used", desc, k))
            }
            _ => {}
        }
    }
    Ok((desc, obs))
}

fn histories<K: Kind>(c: &mut Case, w: &World<K>, depth: usize, first: usize) -> R {
    let nops = w.valid.len() + w.invalid.len() + 4;
    let mut longest = String::new();
    c.explore(|c, ch| {
        let mut xs = vec![
            Inst { q: K::make(w, 0)?, set: 0, used: Some(false), how: "parameter set" },
            Inst { q: K::make(w, 1)?, set: 1, used: Some(false), how: "parameter set" },
        ];
        let mut log: Vec<String> = vec![];
        for d in 0..depth {
            let op = if d == 0 { first } else { ch.choose(nops) };
            // The two sets are alike: start with the first.
            let i = if d == 0 { 0 } else { ch.choose(xs.len()) };
            match step(w, &mut xs, i, op) {
                Ok((s, obs)) => {
                    log.push(s);
                    c.outcome(&(op, obs));
                }
                Err(e) => return Err(format!("{} (after: {})", e, log.join("; "))),
            }
            c.steps(1);
            let st: Vec<_> = xs.iter().map(|x| (x.set, x.used, x.q.used(), x.how)).collect();
            c.state(&(d, st));
        }
        if log.len() == depth && longest.is_empty() {
            longest = log.join("; ");
        }
        c.trace();
        Ok(())
    })?;
    c.sample(longest);
    Ok(())
}

fn many<K: Kind>(c: &mut Case, w: &World<K>, n: usize) -> R {
    let mut q = K::make(w, 0)?;
    if q.gen(w.valid[0]).is_err() {
        return Err("the first query is refused".into());
    }
    for i in 0..n {
        let t = w.valid[i % w.valid.len()];
        if q.gen(t).is_ok() {
            return Err(format!("attempt number {} after use produces a second query", i + 1));
        }
        if !q.used() {
            return Err(format!("attempt number {} clears the used mark", i + 1));
        }
        c.steps(1);
    }
    // and decoding many times in between
    for i in 0..n.min(70_000) {
        q.decode(w.valid[0], &resp_from(&w.resp[0][0]))?;
        if i % 64 == 0 && q.gen(w.valid[0]).is_ok() {
            return Err(format!("after {} decodings a second query is produced", i + 1));
        }
        c.steps(1);
    }
    c.state(&n);
    c.trace();
    Ok(())
}

/// Sets made alternately do not affect each other, whatever the order in
/// which many of them are used.
fn crowd<K: Kind>(c: &mut Case, w: &World<K>) -> R {
    let n = 5;
    // all orders in which 5 sets are used, one of them twice
    c.explore(|c, ch| {
        let mut xs: Vec<(K, bool)> = vec![];
        for i in 0..n {
            xs.push((K::make(w, i % 2)?, false));
        }
        for _ in 0..n + 1 {
            let i = ch.choose(n);
            let r = xs[i].0.gen(w.valid[i % w.valid.len()]);
            if r.is_ok() == xs[i].1 {
                return Err(format!(
                    "set {} of {}, used before: {}, yields Ok: {}",
                    i,
                    n,
                    xs[i].1,
                    r.is_ok()
                ));
            }
            if let Ok(q) = r {
                if q != w.golden[i % 2][i % w.valid.len()] {
                    return Err(format!("set {} yields another set's query", i));
                }
            }
            xs[i].1 = true;
            c.steps(1);
        }
        let st: Vec<bool> = xs.iter().map(|x| x.1).collect();
        c.state(&st);
        c.trace();
        Ok(())
    })
}

fn add<K: Kind>(
    pl: &mut Plan,
    name: &'static str,
    depth: usize,
    nops: usize,
    w: fn(usize) -> Result<World<K>, String>,
) {
    for p in [8usize, 11] {
        for d in 1..=depth {
            if p != 8 && d > 3 {
                continue;
            }
            for first in 0..nops {
                pl.case(format!("{} p={} depth={} first={}", name, p, d, first), move |c| {
                    let w = Arc::new(w(p)?);
                    histories(c, &w, d, first)
                });
            }
        }
    }
    pl.case(format!("{} many attempts", name), move |c| {
        let n = if c.thorough() { 5_000_000 } else { (1 << 17) + 3 };
        many(c, &w(9)?, n)
    });
    pl.case(format!("{} five sets", name), move |c| crowd(c, &w(9)?));
}

pub fn plan(pl: &mut Plan) {
    let depth = if pl.thorough() { 6 } else { 5 };
    pl.bound(format!("all operation sequences of length 1..{} over two parameter sets and their copies: query (3 targets), query outside (2 rows), decode, clone, save-and-restore in 2 formats; index and keyword", depth));
    pl.bound("131075 refused attempts and 70000 decodings on one set; all orders of using 5 sets (one twice)");
    pl.assume("a copy made before the first use may or may not be allowed a query of its own; the public field `used` is not written from outside");
    add::<IQP>(pl, "index", depth, 9, index_world);
    add::<KQP>(pl, "keyword", depth, 7, kv_world);
}
