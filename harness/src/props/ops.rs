//! Operations of the system as closed steps over a prepared world, for the
//! scheduler. Every operation returns what its caller can observe.
#![allow(deprecated)]
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{BaseParams, DatabaseMatrix, IndexParams, KVParams};
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use xorf::*;

#[derive(Serialize, Deserialize)]
pub struct World {
    pub el: [Vec<String>; 2],
    pub keys: [Vec<String>; 2],
    pub ish: [Shard; 2],
    pub ksh: [KVShard; 2],
    pub icp: [CommonParams; 2],
    pub kcp: [CommonParams; 2],
    pub iqp: [IQP; 2],
    pub kqp: [KQP; 2],
    pub iq: [Query; 2],
    pub kq: [Query; 2],
    pub ir: [Response; 2],
    pub kr: [Response; 2],
    pub e: usize,
    pub p: usize,
    pub dim: usize,
    pub dir: String,
}
fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
impl World {
    /// m rows (and n keys), `w` digits of 8 bits each.
    pub fn new(m: usize, n: usize, w: usize, dim: usize, dir: &str) -> Result<World, String> {
        let (e, p) = (8 * w, 8);
        let el = [b64s(&elements(0, m, e)), b64s(&elements(6, m, e))];
        let keys = [0, 1].map(|v| (0..n).map(|i| format!("key {}/{}", v, i)).collect::<Vec<_>>());
        let vals = [b64s(&elements(0, n, e)), b64s(&elements(6, n, e))];
        let ish = [
            Shard::from_base64_strings(&el[0], dim, m, e, p).map_err(s)?,
            Shard::from_base64_strings(&el[1], dim, m, e, p).map_err(s)?,
        ];
        let ksh = [
            KVShard::from_base64_strings(&keys[0], &vals[0], dim, n, e, p).map_err(s)?,
            KVShard::from_base64_strings(&keys[1], &vals[1], dim, n, e, p).map_err(s)?,
        ];
        let icp = [
            CommonParams::from(ish[0].get_base_params()),
            CommonParams::from(ish[1].get_base_params()),
        ];
        let kcp = [
            CommonParams::from(ksh[0].get_base_params()),
            CommonParams::from(ksh[1].get_base_params()),
        ];
        let mk_i = |v: usize| generate_index_query_params(&icp[v], ish[v].get_base_params()).map_err(s);
        let mk_k = |v: usize| generate_kv_query_params(&kcp[v], ksh[v].get_base_params()).map_err(s);
        let iqp = [mk_i(0)?, mk_i(1)?];
        let kqp = [mk_k(0)?, mk_k(1)?];
        let iq = [
            iqp[0].clone().generate_query(0).map_err(s)?,
            iqp[1].clone().generate_query(m - 1).map_err(s)?,
        ];
        let key = |v: usize| sha256_into_u64_sized(keys[v][0].as_bytes()).unwrap();
        let kq = [
            kqp[0].clone().generate_query(&key(0)).map_err(s)?,
            kqp[1].clone().generate_query(&key(1)).map_err(s)?,
        ];
        let ans = |b: Vec<u8>| resp_of(&b);
        let ir = [
            ans(ish[0].respond(&iq[0]).map_err(s)?)?,
            ans(ish[1].respond(&iq[1]).map_err(s)?)?,
        ];
        let kr = [
            ans(ksh[0].respond(&kq[0]).map_err(s)?)?,
            ans(ksh[1].respond(&kq[1]).map_err(s)?)?,
        ];
        Ok(World {
            el, keys, ish, ksh, icp, kcp, iqp, kqp, iq, kq, ir, kr, e, p, dim,
            dir: dir.into(),
        })
    }
}
fn bytes<T: Serialize>(t: &T) -> Result<Vec<u8>, String> {
    bincode::serialize(t).map_err(s)
}
fn key_of(k: &str) -> [u64; 4] {
    sha256_into_u64_sized(k.as_bytes()).unwrap()
}
/// Reads a keyword database back with the reference decoding.
fn kv_contents(sh: &KVShard, keys: &[String], p: usize) -> Vec<u32> {
    let db = sh.get_db();
    let f = db.get_filter_params();
    let mut out = vec![];
    for k in keys {
        let k = key_of(k);
        let h = f.get_hash_evals(&k);
        for (j, c) in db.entries.iter().enumerate() {
            let x = h.iter().fold(0u32, |a, i| a.wrapping_add(c[*i]));
            out.push(f.unmask_value(x, &k, j as u64) & (((1u64 << p) - 1) as u32));
        }
    }
    out
}

/// Operation `name` with arguments of variant v (0 or 1).
pub type Act = fn(&World, usize) -> Result<Vec<u8>, String>;
pub const OPS: &[(&str, Act)] = &[
    ("answer", |w, v| w.ish[v].respond(&w.iq[v]).map_err(s)),
    // both threads ask the same shard
    ("answer of one shard", |w, v| w.ish[0].respond(&w.iq[v]).map_err(s)),
    ("keyword answer", |w, v| w.ksh[v].respond(&w.kq[v]).map_err(s)),
    ("keyword answer of one shard", |w, v| {
        let q = if v == 0 {
            w.kq[0].clone()
        } else {
            query_from(&w.kq[0].as_slice().iter().map(|x| x ^ 0x1234_5678).collect::<Vec<_>>())
        };
        w.ksh[0].respond(&q).map_err(s)
    }),
    ("refused query", |w, v| {
        let q = query_from(&vec![7; w.iq[v].as_slice().len() - 1]);
        let k = query_from(&vec![7; w.kq[v].as_slice().len() + 1]);
        Ok(vec![w.ish[v].respond(&q).is_err() as u8, w.ksh[v].respond(&k).is_err() as u8])
    }),
    ("build", |w, v| {
        let sh = Shard::from_base64_strings(&w.el[v], w.dim, w.el[v].len(), w.e, w.p).map_err(s)?;
        bytes(&sh)
    }),
    ("keyword build", |w, v| {
        let vals = &w.el[v][..w.keys[v].len()];
        let sh = KVShard::from_base64_strings(&w.keys[v], vals, w.dim, vals.len(), w.e, w.p).map_err(s)?;
        let mut b = bytes(sh.get_base_params())?;
        b.extend(bytes(&kv_contents(&sh, &w.keys[v], w.p))?);
        Ok(b)
    }),
    ("derive", |w, v| bytes(&CommonParams::from(w.ish[v].get_base_params()))),
    ("keyword derive", |w, v| bytes(&CommonParams::from(w.ksh[v].get_base_params()))),
    ("prepare", |w, v| {
        bytes(&generate_index_query_params(&w.icp[v], w.ish[v].get_base_params()).map_err(s)?)
    }),
    ("keyword prepare", |w, v| {
        bytes(&generate_kv_query_params(&w.kcp[v], w.ksh[v].get_base_params()).map_err(s)?)
    }),
    ("query", |w, v| {
        let mut q = w.iqp[v].clone();
        let first = q.generate_query(v).map_err(s)?;
        let second = q.generate_query(0).is_err();
        Ok([bytes(&first)?, vec![second as u8, q.used as u8]].concat())
    }),
    ("keyword query", |w, v| {
        let mut q = w.kqp[v].clone();
        let first = q.generate_query(&key_of(&w.keys[v][0])).map_err(s)?;
        let second = q.generate_query(&[1, 2, 3, 4]).is_err();
        Ok([bytes(&first)?, vec![second as u8, q.used as u8]].concat())
    }),
    ("decode", |w, v| {
        let row = w.iqp[v].parse_resp_as_row(&w.ir[v]);
        let mut b = bytes(&row)?;
        b.extend(w.iqp[v].parse_resp_as_base64(&w.ir[v]).bytes());
        Ok(b)
    }),
    ("keyword decode", |w, v| {
        let k = key_of(&w.keys[v][0]);
        let row = w.kqp[v].parse_resp_as_row(&w.kr[v], &k).map_err(s)?;
        let mut b = bytes(&row)?;
        b.extend(w.kqp[v].parse_resp_as_base64(&w.kr[v], &k).map_err(s)?.bytes());
        Ok(b)
    }),
    ("read", |w, v| {
        let d = w.ish[v].get_db();
        let mut b = d.get_db_entry(v).into_bytes();
        for x in w.ish[v].clone().into_row_iter() {
            b.extend(x.bytes());
        }
        b.extend(bytes(&d.get_row(0))?);
        Ok(b)
    }),
    ("copy", |w, v| {
        let b = bytes(&w.ish[v])?;
        let t: Shard = bincode::deserialize(&b).map_err(s)?;
        let j = serde_json::to_string(w.ksh[v].get_base_params()).map_err(s)?;
        let k: KVParams = serde_json::from_str(&j).map_err(s)?;
        Ok([bytes(&t)?, bytes(&k)?].concat())
    }),
    ("save and load", |w, v| {
        let (a, b) = (format!("{}/db{}", w.dir, v), format!("{}/params{}", w.dir, v));
        w.ish[v].write_to_file(&a, &b).map_err(s)?;
        let back = IndexParams::load(&b).map_err(s)?;
        let db: Vec<Vec<u32>> = serde_json::from_slice(&std::fs::read(&a).map_err(s)?).map_err(s)?;
        Ok([bytes(&back)?, bytes(&db)?].concat())
    }),
    ("build from file", |w, v| {
        let f = format!("{}/in{}.json", w.dir, v);
        std::fs::write(&f, serde_json::to_string(&w.el[v]).map_err(s)?).map_err(s)?;
        let sh = Shard::from_json_file(&f, 1, 1, w.e, w.p).map_err(s)?;
        bytes(&sh)
    }),
    ("xor filter", |_, v| {
        let ks: Vec<u64> = (0..3 + v as u64).map(|i| sm(i + 50 * v as u64)).collect();
        let f = Xor16::from(&ks);
        let g: HashProxy<u64, std::collections::hash_map::DefaultHasher, Xor8> = HashProxy::from(&ks);
        Ok(vec![
            ks.iter().all(|k| f.contains(k)) as u8,
            ks.iter().all(|k| g.contains(k)) as u8,
            f.len() as u8,
        ])
    }),
    ("binary fuse filter", |_, v| {
        let ks: Vec<u64> = (0..3 + v as u64).map(|i| sm(i + 50 * v as u64)).collect();
        let f = BinaryFuse8::try_from(&ks).map_err(s)?;
        let g = BinaryFuse32::try_from(&ks).map_err(s)?;
        Ok(vec![
            ks.iter().all(|k| f.contains(k)) as u8,
            ks.iter().all(|k| g.contains(k)) as u8,
            f.len() as u8,
        ])
    }),
    ("mod-p filter", |_, v| {
        let ks: Vec<[u64; 4]> = (0..3 + v as u64).map(|i| [i, 7 * v as u64, sm(i), 9]).collect();
        let data: Vec<u32> = (0..ks.len()).map(|i| (i * 77 + v) as u32 % 257).collect();
        for t in 0..200u8 {
            if let Ok(f) = BinaryFuseP32::from_slice([t ^ v as u8; 32], &ks, &data, 5, 257) {
                return Ok(ks.iter().zip(&data).map(|(k, d)| (f.retrieve(k, 5) == *d) as u8).collect());
            }
        }
        Err("no seed fits".into())
    }),
];
/// An exchange with a database of each shape (rows, element bits, digit bits,
/// dimension).
fn shapes(list: &[(usize, usize, usize, usize)]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    for &(m, e, p, dim) in list {
        let el = b64s(&elements(2, m, e));
        let sh = Shard::from_base64_strings(&el, dim, m, e, p).map_err(s)?;
        let cp = CommonParams::from(sh.get_base_params());
        let mut q = generate_index_query_params(&cp, sh.get_base_params()).map_err(s)?;
        let r = resp_of(&sh.respond(&q.generate_query(1).map_err(s)?).map_err(s)?)?;
        out.extend(bytes(&(cp.as_matrix().len(), cp.as_matrix()[0].len(), r.as_slice().len()))?);
        out.extend(q.parse_resp_as_bytes(&r));
    }
    Ok(out)
}
fn params_json(sh: &Shard) -> Result<serde_json::Value, String> {
    serde_json::to_value(sh.get_base_params()).map_err(s)
}
fn derive_from(p: serde_json::Value) -> Result<Vec<u8>, String> {
    let p: IndexParams = serde_json::from_value(p).map_err(s)?;
    bytes(&CommonParams::from(&p))
}
/// Operations that only histories are made of.
pub const MORE: &[(&str, Act)] = &[
    ("refused build", |w, v| {
        let m = w.el[v].len();
        let mut out = vec![];
        let mut add = |r: Result<(), String>| out.extend(r.err().unwrap_or_else(|| "built".into()).bytes());
        add(Shard::from_base64_strings(&w.el[v], w.dim, m + 1, w.e, w.p).map(|_| ()).map_err(s));
        add(Shard::from_base64_strings(&w.el[v], w.dim, m, w.e + 8, w.p).map(|_| ()).map_err(s));
        add(Shard::from_base64_strings(&w.el[v], w.dim, m, w.e, 32).map(|_| ()).map_err(s));
        add(Shard::from_base64_strings(&["!".to_string()], w.dim, 1, w.e, w.p).map(|_| ()).map_err(s));
        let two = [w.keys[v][0].clone(), w.keys[v][0].clone()];
        add(KVShard::from_base64_strings(&two, &w.el[v][..2], w.dim, 2, w.e, w.p).map(|_| ()).map_err(s));
        add(KVShard::from_base64_strings(&two, &w.el[v][..1], w.dim, 2, w.e, w.p).map(|_| ()).map_err(s));
        Ok(out)
    }),
    ("refused load", |w, v| {
        let mut out = vec![];
        let mut add = |r: Result<(), String>| out.push(r.is_err() as u8);
        let f = format!("{}/none{}", w.dir, v);
        add(IndexParams::load(&f).map(|_| ()).map_err(s));
        add(Shard::from_json_file(&f, 1, 1, w.e, w.p).map(|_| ()).map_err(s));
        let f = format!("{}/bad{}", w.dir, v);
        std::fs::write(&f, "[\"AA").map_err(s)?;
        add(IndexParams::load(&f).map(|_| ()).map_err(s));
        add(Shard::from_json_file(&f, 1, 1, w.e, w.p).map(|_| ()).map_err(s));
        add(KVShard::from_json_file(&f, 1, 1, w.e, w.p).map(|_| ()).map_err(s));
        Ok(out)
    }),
    ("refused row", |w, v| {
        let mut q = w.iqp[v].clone();
        let a = q.generate_query(99).is_err();
        let b = q.generate_query(usize::MAX).is_err();
        let c = bytes(&q.generate_query(1).map_err(s)?)?;
        let d = generate_index_query_params(&w.icp[v], &IndexParams::new(w.ish[v].get_db(), w.dim + 1)).is_err();
        let e = w.kqp[v].parse_resp_as_row(&resp_from(&[1, 2, 3, 4, 5]), &[0; 4]).is_err();
        Ok([c, vec![a as u8, b as u8, d as u8, e as u8]].concat())
    }),
    ("foreign key", |w, v| {
        let k = [v as u64, 5, 6, 7];
        let q = w.kqp[v].clone().generate_query(&k).map_err(s)?;
        let r = resp_of(&w.ksh[v].respond(&q).map_err(s)?)?;
        bytes(&w.kqp[v].parse_resp_as_row(&r, &k).map_err(s)?)
    }),
    ("exchange of another shape", |_, v| {
        let (m, e, p, dim) = [(5, 10, 3, 3), (1, 33, 11, 1)][v];
        let el = b64s(&elements(2, m, e));
        let sh = Shard::from_base64_strings(&el, dim, m, e, p).map_err(s)?;
        let cp = CommonParams::from(sh.get_base_params());
        let mut q = generate_index_query_params(&cp, sh.get_base_params()).map_err(s)?;
        let m = q.generate_query(m - 1).map_err(s)?;
        let r = resp_of(&sh.respond(&m).map_err(s)?)?;
        Ok([bytes(&m)?, bytes(&r)?, q.parse_resp_as_bytes(&r)].concat())
    }),
    ("keyword exchange of another shape", |_, v| {
        let (n, e, p, dim) = [(4, 10, 5, 3), (1, 33, 11, 1)][v];
        let el = b64s(&elements(2, n, e));
        let keys: Vec<String> = (0..n).map(|i| format!("other {}", i)).collect();
        let sh = KVShard::from_base64_strings(&keys, &el, dim, n, e, p).map_err(s)?;
        let cp = CommonParams::from(sh.get_base_params());
        let mut out = vec![];
        for k in &keys {
            let mut q = generate_kv_query_params(&cp, sh.get_base_params()).map_err(s)?;
            let k = key_of(k);
            let m = q.generate_query(&k).map_err(s)?;
            let r = resp_of(&sh.respond(&m).map_err(s)?)?;
            out.extend(q.parse_resp_as_bytes(&r, &k).map_err(s)?);
        }
        Ok(out)
    }),
    // the same key in databases with different seeds, a single digit each
    ("shared key", |_, v| {
        let k = key_of("shared");
        let mut out = vec![];
        for (n, p) in [(1, 8), (3, 8 + v), (1, 8)] {
            let el = b64s(&elements([0, 6][v], n, 8));
            let keys: Vec<String> = (0..n).map(|i| if i == 0 { "shared".into() } else { format!("{}", i) }).collect();
            let sh = KVShard::from_base64_strings(&keys, &el, 1, n, 8, p).map_err(s)?;
            let cp = CommonParams::from(sh.get_base_params());
            let mut q = generate_kv_query_params(&cp, sh.get_base_params()).map_err(s)?;
            let m = q.generate_query(&k).map_err(s)?;
            let r = resp_of(&sh.respond(&m).map_err(s)?)?;
            for _ in 0..2 {
                out.extend(q.parse_resp_as_bytes(&r, &k).map_err(s)?);
            }
        }
        Ok(out)
    }),
    // shapes that agree in the low bits of their numbers
    ("shape aliases", |_, v| shapes([&[(3, 16, 8, 2)][..], &[(3 + 256, 16, 8, 2), (3, 16 + 256, 8, 2), (3, 16, 8, 2 + 256), (3, 16, 24, 2)]][v])),
    ("large shape aliases", |_, v| shapes([&[(3, 16 + 65536, 8, 2), (3, 16, 8, 2 + 65536)][..], &[(3, 16, 9, 2)]][v])),
    // unused slots hold random words of a generator that goes on across
    // operations, so the hint is compared with the contents
    ("stable keyword build", |w, v| {
        let vals = &w.el[v][..w.keys[v].len()];
        let sh = KVShard::from_base64_strings(&w.keys[v], vals, w.dim, vals.len(), w.e, w.p).map_err(s)?;
        let bp = sh.get_base_params();
        let cp = CommonParams::from(bp);
        let hint = (0..bp.get_rhs().len()).all(|j| {
            (0..w.dim).all(|d| {
                let col = &sh.get_db().entries[j];
                (0..col.len()).fold(0u32, |a, k| a.wrapping_add(cp.as_matrix()[k][d].wrapping_mul(col[k]))) == bp.get_rhs()[j][d]
            })
        });
        let mut b = bytes(&(bp.get_public_seed(), bp.get_filter_params(), bp.get_total_records(), hint))?;
        b.extend(bytes(&kv_contents(&sh, &w.keys[v], w.p))?);
        Ok(b)
    }),
    ("keyword file", |w, v| {
        let f = format!("{}/kv{}.json", w.dir, v);
        let m: Vec<_> = w.keys[v].iter().zip(&w.el[v]).map(|(k, x)| serde_json::json!({"key": k, "value": x})).collect();
        std::fs::write(&f, serde_json::to_string(&m).map_err(s)?).map_err(s)?;
        let sh = KVShard::from_json_file(&f, 1, w.keys[v].len(), w.e, w.p).map_err(s)?;
        let (a, b) = (format!("{}/kdb{}", w.dir, v), format!("{}/kparams{}", w.dir, v));
        sh.write_to_file(&a, &b).map_err(s)?;
        let back: KVParams = serde_json::from_slice(&std::fs::read(&b).map_err(s)?).map_err(s)?;
        let db: Vec<Vec<u32>> = serde_json::from_slice(&std::fs::read(&a).map_err(s)?).map_err(s)?;
        let same = bytes(&back)? == bytes(sh.get_base_params())? && db == sh.get_db().entries;
        let mut out = bytes(&kv_contents(&sh, &w.keys[v], w.p))?;
        out.push(same as u8);
        Ok(out)
    }),
    // arguments that differ in one place only
    ("derive near", |w, v| {
        let mut p = params_json(&w.ish[0])?;
        let at = 31;
        p["public_seed"][at] = serde_json::json!(p["public_seed"][at].as_u64().unwrap_or(0) ^ (v as u64 * 128));
        derive_from(p)
    }),
    ("derive near, other end", |w, v| {
        let mut p = params_json(&w.ish[0])?;
        p["public_seed"][7 * v] = serde_json::json!(p["public_seed"][7 * v].as_u64().unwrap_or(0) ^ 1);
        derive_from(p)
    }),
    ("derive other shape", |w, v| {
        let mut p = params_json(&w.ish[0])?;
        p["dim"] = serde_json::json!([3, 2][v]);
        p["m"] = serde_json::json!([2, 4][v]);
        derive_from(p)
    }),
    ("answer near", |w, v| {
        let mut q = w.iq[0].as_slice().to_vec();
        let n = q.len();
        q[n - 1] ^= 1 << (31 * v);
        w.ish[0].respond(&query_from(&q)).map_err(s)
    }),
    ("keyword answer near", |w, v| {
        let mut q = w.kq[0].as_slice().to_vec();
        let n = q.len();
        q[(n - 1) * v] ^= 0x100;
        w.ksh[0].respond(&query_from(&q)).map_err(s)
    }),
    ("query near", |w, v| {
        let mut q = w.iqp[0].clone();
        bytes(&q.generate_query(1 + v).map_err(s)?)
    }),
    ("decode near", |w, v| {
        let mut r = w.ir[0].as_slice().to_vec();
        r[v] = r[v].wrapping_add(1 << 24);
        Ok(w.iqp[0].parse_resp_as_bytes(&resp_from(&r)))
    }),
    // temporary objects of one shape, likely at one address
    ("temporary shard", |w, v| {
        let sh = Shard::from_base64_strings(&w.el[v], w.dim, w.el[v].len(), w.e, w.p).map_err(s)?;
        let a = sh.respond(&query_from(&[1, 1 << 9, 1 << 18])).map_err(s)?;
        let b = sh.get_db().get_db_entry(2);
        Ok([a, b.into_bytes()].concat())
    }),
    ("file rewritten", |w, v| {
        let f = format!("{}/same.json", w.dir);
        std::fs::write(&f, serde_json::to_string(&w.el[v]).map_err(s)?).map_err(s)?;
        let sh = Shard::from_json_file(&f, 1, w.el[v].len(), w.e, w.p).map_err(s)?;
        let (a, b) = (format!("{}/samedb", w.dir), format!("{}/sameparams", w.dir));
        sh.write_to_file(&a, &b).map_err(s)?;
        let back = IndexParams::load(&b).map_err(s)?;
        Ok([bytes(&sh)?, bytes(&back)?].concat())
    }),
    ("empty and duplicate filters", |_, v| {
        let ks: Vec<u64> = if v == 0 { vec![] } else { vec![7; 40] };
        let mut out = vec![Xor8::from(&[][..]).contains(&3) as u8];
        for r in [
            BinaryFuse8::try_from(&ks).map(|f| f.len()),
            BinaryFuse16::try_from(&ks).map(|f| f.len()),
            Fuse8::try_from(&ks).map(|f| f.len()),
            BinaryFuseP32::from_slice([v as u8; 32], &vec![[1, 2, 3, 4]; 2 * v], &[5], 0, 1024).map(|f| f.fingerprints.len()),
        ] {
            match r {
                Ok(n) => out.push(n.min(255) as u8),
                Err(e) => out.extend(e.bytes()),
            }
        }
        Ok(out)
    }),
];
pub fn op(name: &str) -> Act {
    OPS.iter().find(|o| o.0 == name).expect("harness: operation").1
}
