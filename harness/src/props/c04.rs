//! C04: a query is a fresh LWE sample plus the scaled selection vector.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, IndexParams, KVDatabase, KVParams};
use std::collections::HashSet;

/// Digits in {-1,0,1} of x in base 16, lowest first; `n` of them.
fn base16(x: u32, n: usize) -> Result<Vec<i32>, String> {
    let mut v = x as i32 as i64;
    let mut out = vec![];
    for _ in 0..n {
        let r = ((v % 16) + 16) % 16;
        let d = match r {
            0 => 0,
            1 => 1,
            15 => -1,
            _ => {
                return Err(format!(
                    "coordinate {} of {:#x} is not ternary",
                    out.len(),
                    x
                ))
            }
        };
        out.push(d as i32);
        v = (v - d) / 16;
    }
    if v != 0 {
        return Err(format!("{:#x} is not a ternary combination", x));
    }
    Ok(out)
}
/// Column whose product with a ternary s, plus e, determines s and e:
/// 16^1 .. 16^dim.
fn weights(dim: usize) -> Vec<u32> {
    (0..dim).map(|i| 16u32.wrapping_pow(i as u32 + 1)).collect()
}
fn db_index(m: usize, w: usize, p: usize, salt: usize) -> IndexDatabase {
    let e = w * p;
    let el: Vec<String> = (0..m).map(|i| b64(&content(0, i + 17 * salt, e))).collect();
    IndexDatabase::new(&el, m, e, p).expect("database")
}
fn ternary(s: &[i32]) -> Vec<u32> {
    s.iter().map(|&x| x as u32).collect()
}

/// The offline term used by `decode` equals `want` (mod 2^32): pinned by the
/// responses at which decoding changes.
fn pin_offline(decode: &dyn Fn(&[u32]) -> Result<Vec<u32>, String>, want: &[u32], p: usize) -> R {
    let d = delta(p);
    let size = 1u64 << p;
    let w = want.len();
    // zero of every column, including keyword masks
    let base = decode(want)?;
    for (v, noise) in [
        (0u32, (d / 2).wrapping_sub(1)),
        (0, (d / 2 - 1).wrapping_neg()),
        (1, 0),
        (1, (d / 2 - 1).wrapping_neg()),
        ((size / 2) as u32, d / 2 - 1),
        ((size - 1) as u32, 0),
    ] {
        let r: Vec<u32> = want
            .iter()
            .map(|x| x.wrapping_add(v.wrapping_mul(d)).wrapping_add(noise))
            .collect();
        let got = decode(&r)?;
        for j in 0..w {
            let exp = ((base[j] as u64 + v as u64) % size) as u32;
            if got[j] != exp {
                return Err(format!(
          "offline term of column {} is not s*hint: response term+{}*delta{:+} decodes to {} (expected {})",
          j, v, noise as i32, got[j], exp
        ));
            }
        }
    }
    Ok(())
}

fn lwe(s: &[i32], e: &[i32], cols: &[Vec<u32>]) -> Vec<u32> {
    cols.iter()
        .zip(e)
        .map(|(c, e)| dot(&ternary(s), c).wrapping_add(*e as u32))
        .collect()
}

fn index_all(c: &mut Case, dim: usize, m: usize, p: usize) -> R {
    let db = db_index(m, 2, p, 0);
    let ip = IndexParams::new(&db, dim);
    let cpw = cp_from(&vec![weights(dim); m]);
    let env = Env::install(&[], &[]);
    let alpha = [
        0u32,
        1,
        0x8000_0000,
        u32::MAX,
        delta(p),
        delta(p).wrapping_neg(),
        0x1234_5677,
    ];
    let mats: Vec<Vec<Vec<u32>>> = (0..alpha.len())
        .map(|a| {
            (0..m)
                .map(|j| {
                    (0..dim)
                        .map(|i| alpha[(a + i + 2 * j) % alpha.len()])
                        .collect()
                })
                .collect()
        })
        .chain([CommonParams::from(&ip).as_matrix().to_vec()])
        .collect();
    let mut seen: HashSet<(Vec<i32>, Vec<i32>)> = HashSet::new();
    let mut n = 0u64;
    c.explore(|c, ch| {
        let t: Vec<usize> = (0..dim + m).map(|_| ch.choose(3)).collect();
        let words = coins(&t);
        let mut se: Option<(Vec<i32>, Vec<i32>)> = None;
        for target in 0..m {
            let shot = |cp: &CommonParams| -> Result<(IQP, Vec<u32>), String> {
                env.set_words(&words, None);
                let mut qp = generate_index_query_params(cp, &ip).map_err(|e| e.to_string())?;
                let q = qp
                    .generate_query(target)
                    .map_err(|e| format!("query for row {} refused: {}", target, e))?;
                if q.as_slice().len() != m {
                    return Err(format!("query of {} words", q.as_slice().len()));
                }
                let mut v = q.as_slice().to_vec();
                v[target] = v[target].wrapping_sub(delta(p));
                Ok((qp, v))
            };
            let (qp, v) = shot(&cpw)?;
            let mut s: Option<Vec<i32>> = None;
            let mut e = vec![];
            for j in 0..m {
                let d = base16(v[j], dim + 1)
                    .map_err(|x| format!("coins {:?} target {}: word {}: {}", t, target, j, x))?;
                e.push(d[0]);
                let sj = d[1..].to_vec();
                if let Some(s0) = &s {
                    if *s0 != sj {
                        return Err(format!(
                            "coins {:?} target {}: columns use different secrets {:?} {:?}",
                            t, target, s0, sj
                        ));
                    }
                }
                s = Some(sj);
            }
            let s = s.unwrap();
            if let Some((s0, e0)) = &se {
                if *s0 != s || *e0 != e {
                    return Err(format!(
                        "coins {:?}: sample depends on the row: {:?}/{:?} for row {}",
                        t, s, e, target
                    ));
                }
            }
            // offline term
            let want: Vec<u32> = ip.get_rhs().iter().map(|h| dot(&ternary(&s), h)).collect();
            if delta(p) >= 4 {
                pin_offline(&|r| Ok(qp.parse_resp_as_row(&resp_from(r))), &want, p)
                    .map_err(|x| format!("coins {:?} target {}: {}", t, target, x))?;
            }
            // the same coins against other matrices
            for a in &mats {
                let (_, v) = shot(&cp_from(a))?;
                let exp = lwe(&s, &e, a);
                if v != exp {
                    return Err(format!(
                        "coins {:?} target {}: query {:x?} instead of s*A+e = {:x?} (A={:x?})",
                        t, target, v, exp, a
                    ));
                }
                c.steps(1);
                c.state(&(target, a, &v));
            }
            c.steps(2);
            c.trace();
            se = Some((s, e));
        }
        seen.insert(se.unwrap());
        n += 1;
        Ok(())
    })?;
    if seen.len() as u64 != n {
        return Err(format!(
      "{} coin outcomes give only {} distinct (s,e): the coordinates are not drawn independently",
      n,
      seen.len()
    ));
    }
    for x in &seen {
        c.outcome(x);
    }
    c.sample(format!(
        "{} coin outcomes <-> {} distinct (s,e) pairs, {} rows",
        n,
        seen.len(),
        m
    ));
    Ok(())
}

fn kv_params(dim: usize, p: usize, n: usize) -> (KVDatabase, KVParams, Vec<[u64; 4]>) {
    let keys = keyset(0, n + 1);
    let (kvs, _) = kvs_of(&keys[..n], 0, 2 * p, p);
    let db = KVDatabase::new(&kvs, n, 2 * p, p).expect("kv database");
    let f = db.get_filter_params().clone();
    let kp = KVParams::new(
        &db,
        dim,
        f.seed,
        f.segment_length,
        f.segment_length_mask,
        f.segment_count_length,
    );
    (db, kp, keys)
}

fn kv_all(c: &mut Case, p: usize, first: usize) -> R {
    let dim = 1;
    let (db, kp, keys) = kv_params(dim, p, 1);
    let h = db.get_matrix_height();
    if h > 12 {
        return Err(format!("harness: filter height {} for one key", h));
    }
    let cpw = cp_from(&vec![weights(dim); h]);
    let cpr = CommonParams::from(&kp);
    let real = cpr.as_matrix().to_vec();
    let env = Env::install(&[], &[]);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut n = 0u64;
    let ind: Vec<Vec<u32>> = keys
        .iter()
        .map(|k| {
            let mut v = vec![0u32; h];
            for x in db.get_filter_params().get_hash_evals(k) {
                v[x] = v[x].wrapping_add(delta(p));
            }
            v
        })
        .collect();
    c.explore(|c, ch| {
        let mut t = vec![first];
        t.extend((0..dim + h - 1).map(|_| ch.choose(3)));
        let words = coins(&t);
        let k = (n % 2) as usize;
        env.set_words(&words, None);
        let mut qp = generate_kv_query_params(&cpw, &kp).map_err(|e| e.to_string())?;
        let q = qp.generate_query(&keys[k]).map_err(|e| e.to_string())?;
        if q.as_slice().len() != h {
            return Err(format!("query of {} words", q.as_slice().len()));
        }
        let mut code = vec![];
        let mut s: Option<i32> = None;
        for j in 0..h {
            let d = base16(q.as_slice()[j].wrapping_sub(ind[k][j]), 2)
                .map_err(|x| format!("coins {:?} key {}: word {}: {}", t, k, j, x))?;
            code.push(d[0]);
            if s.map_or(false, |s| s != d[1]) {
                return Err(format!("coins {:?}: columns use different secrets", t));
            }
            s = Some(d[1]);
        }
        let s = s.unwrap();
        if n % 64 < 2 {
            let want: Vec<u32> = kp.get_rhs().iter().map(|r| dot(&[s as u32], r)).collect();
            pin_offline(
                &|r| {
                    qp.parse_resp_as_row(&resp_from(r), &keys[k])
                        .map_err(|e| e.to_string())
                },
                &want,
                p,
            )
            .map_err(|x| format!("coins {:?}: {}", t, x))?;
            env.set_words(&words, None);
            let mut qp = generate_kv_query_params(&cpr, &kp).map_err(|e| e.to_string())?;
            let q = qp.generate_query(&keys[k]).map_err(|e| e.to_string())?;
            for j in 0..h {
                let exp = dot(&[s as u32], &real[j])
                    .wrapping_add(code[j] as u32)
                    .wrapping_add(ind[k][j]);
                if q.as_slice()[j] != exp {
                    return Err(format!(
                        "coins {:?} word {}: not s*A+e+delta*indicator",
                        t, j
                    ));
                }
            }
        }
        code.push(s);
        let hh = h64(&code);
        seen.insert(hh);
        c.state(&hh);
        c.steps(2);
        c.trace();
        n += 1;
        Ok(())
    })?;
    if seen.len() as u64 != n {
        return Err(format!(
            "{} coin outcomes give {} distinct (s,e)",
            n,
            seen.len()
        ));
    }
    Ok(())
}

/// Several parameter sets in a row: each has its own coins.
fn sequence(c: &mut Case, len: usize, kinds: Vec<bool>) -> R {
    let p = 9;
    let db = db_index(1, 1, p, 1);
    let ip = IndexParams::new(&db, 1);
    let cpi = cp_from(&[vec![16u32]]);
    let (kdb, kp, keys) = kv_params(1, p, 1);
    let h = kdb.get_matrix_height();
    let cpk = cp_from(&vec![vec![16u32]; h]);
    let env = Env::install(&[], &[]);
    let mut seen: HashSet<Vec<u32>> = HashSet::new();
    let mut n = 0u64;
    let w = coin_words();
    c.explore(|c, ch| {
        // index sets take 2 coins; keyword sets 1+h, of which 2 are explored
        let mut words = vec![];
        for &kv in &kinds {
            let (a, b) = (ch.choose(3), ch.choose(3));
            words.push(w[a]);
            words.push(w[b]);
            if kv {
                words.extend(std::iter::repeat(w[0]).take(h - 1));
            }
        }
        env.set_words(&words, None);
        let mut obs = vec![];
        // all parameter sets first, then all queries
        let mut iq = vec![];
        let mut kq = vec![];
        for &kv in &kinds {
            if kv {
                kq.push(generate_kv_query_params(&cpk, &kp).map_err(|e| e.to_string())?)
            } else {
                iq.push(generate_index_query_params(&cpi, &ip).map_err(|e| e.to_string())?)
            }
        }
        for q in &mut iq {
            obs.extend_from_slice(q.generate_query(0).map_err(|e| e.to_string())?.as_slice());
        }
        for q in &mut kq {
            obs.extend_from_slice(
                q.generate_query(&keys[0])
                    .map_err(|e| e.to_string())?
                    .as_slice(),
            );
        }
        c.steps(2 * kinds.len() as u64);
        c.state(&obs);
        c.trace();
        seen.insert(obs);
        n += 1;
        Ok(())
    })?;
    if seen.len() as u64 != n {
        return Err(format!(
      "{} coin outcomes for {} parameter sets give only {} distinct results: coins are shared",
      n,
      len,
      seen.len()
    ));
    }
    Ok(())
}

/// Larger shapes: every coin decides exactly one coordinate.
fn one_coin_one_coordinate(c: &mut Case, dim: usize, m: usize, kv: bool) -> R {
    let p = 8;
    let env = Env::install(&[], &[]);
    let w = coin_words();
    let (ip, kdata, h) = if kv {
        let d = kv_params(dim, p, m);
        let h = d.0.get_matrix_height();
        (None, Some(d), h)
    } else {
        let db = db_index(m, 1, p, 3);
        (Some(IndexParams::new(&db, dim)), None, m)
    };
    if dim > h {
        return Err("harness: need dim <= height".into());
    }
    // column j: 16 times the unit vector j mod dim
    let cols: Vec<Vec<u32>> = (0..h)
        .map(|j| {
            (0..dim)
                .map(|i| if i == j % dim { 16 } else { 0 })
                .collect()
        })
        .collect();
    let cp = cp_from(&cols);
    let base: Vec<usize> = (0..dim + h).map(|i| (sm(i as u64) % 3) as usize).collect();
    let run = |t: &[usize]| -> Result<Vec<i32>, String> {
        let words: Vec<u32> = t.iter().map(|&x| w[x]).collect();
        env.set_words(&words, None);
        let q = match (&ip, &kdata) {
            (Some(ip), _) => {
                let mut qp = generate_index_query_params(&cp, ip).map_err(|e| e.to_string())?;
                let mut q = qp
                    .generate_query(h - 1)
                    .map_err(|e| e.to_string())?
                    .as_slice()
                    .to_vec();
                q[h - 1] = q[h - 1].wrapping_sub(delta(p));
                q
            }
            (_, Some((db, kp, keys))) => {
                let mut qp = generate_kv_query_params(&cp, kp).map_err(|e| e.to_string())?;
                let mut q = qp
                    .generate_query(&keys[0])
                    .map_err(|e| e.to_string())?
                    .as_slice()
                    .to_vec();
                for x in db.get_filter_params().get_hash_evals(&keys[0]) {
                    q[x] = q[x].wrapping_sub(delta(p));
                }
                q
            }
            _ => unreachable!(),
        };
        if env.words_used() != dim + h {
            return Err(format!(
                "{} coins drawn for dimension {} and height {}",
                env.words_used(),
                dim,
                h
            ));
        }
        let mut out = vec![9i32; dim + h];
        for j in 0..h {
            let d = base16(q[j], 2)?;
            out[dim + j] = d[0];
            let i = j % dim;
            if out[i] != 9 && out[i] != d[1] {
                return Err(format!("secret coordinate {} differs between columns", i));
            }
            out[i] = d[1];
        }
        Ok(out)
    };
    let ref0 = run(&base)?;
    let mut owner = vec![usize::MAX; dim + h];
    for k in 0..dim + h {
        let mut vals = HashSet::new();
        for x in 1..3 {
            let mut t = base.clone();
            t[k] = (t[k] + x) % 3;
            let r = run(&t)?;
            let diff: Vec<usize> = (0..dim + h).filter(|&i| r[i] != ref0[i]).collect();
            if diff.len() != 1 {
                return Err(format!(
                    "dim={} height={}: coin {} decides {} coordinates",
                    dim,
                    h,
                    k,
                    diff.len()
                ));
            }
            if owner[diff[0]] != usize::MAX && owner[diff[0]] != k {
                return Err(format!(
                    "coins {} and {} decide the same coordinate",
                    owner[diff[0]], k
                ));
            }
            owner[diff[0]] = k;
            vals.insert(r[diff[0]]);
            c.steps(2);
            c.state(&(k, x));
            c.trace();
        }
        if vals.len() != 2 {
            return Err(format!("coin {} does not reach all three values", k));
        }
    }
    c.outcome(&owner);
    Ok(())
}

/// Much larger shapes: over many tapes no two coordinates behave alike, and
/// every coordinate takes all three values.
fn no_two_alike(c: &mut Case, dim: usize, m: usize, kv: bool) -> R {
    let p = 8;
    let env = Env::install(&[], &[]);
    let w = coin_words();
    let (ip, kdata, h) = if kv {
        let d = kv_params(dim, p, m);
        let h = d.0.get_matrix_height();
        (None, Some(d), h)
    } else {
        let db = db_index(m, 1, p, 3);
        (Some(IndexParams::new(&db, dim)), None, m)
    };
    // Column j isolates the coordinates of group j in base 16.
    let per = if dim <= h { 1 } else { 7 };
    let groups = (dim + per - 1) / per;
    if groups > h {
        return Err("harness: too few columns".into());
    }
    let cols: Vec<Vec<u32>> = (0..h)
        .map(|j| {
            let mut v = vec![0u32; dim];
            let g = j % groups;
            for k in 0..per {
                if g * per + k < dim {
                    v[g * per + k] = 16u32.wrapping_pow(k as u32 + 1);
                }
            }
            v
        })
        .collect();
    let cp = cp_from(&cols);
    let runs = 72u64;
    let mut code = vec![0u128; dim + h];
    let mut seen = vec![0u8; dim + h];
    for r in 0..runs {
        let words: Vec<u32> =
            (0..dim + h).map(|i| w[(sm(i as u64 * 1024 + r) >> 7) as usize % 3]).collect();
        env.set_words(&words, None);
        let mut q;
        match (&ip, &kdata) {
            (Some(ip), _) => {
                let mut qp = generate_index_query_params(&cp, ip).map_err(|e| e.to_string())?;
                let t = (r as usize * 9973) % h;
                q = qp.generate_query(t).map_err(|e| e.to_string())?.as_slice().to_vec();
                q[t] = q[t].wrapping_sub(delta(p));
            }
            (_, Some((db, kp, keys))) => {
                let mut qp = generate_kv_query_params(&cp, kp).map_err(|e| e.to_string())?;
                let k = &keys[r as usize % keys.len()];
                q = qp.generate_query(k).map_err(|e| e.to_string())?.as_slice().to_vec();
                for x in db.get_filter_params().get_hash_evals(k) {
                    q[x] = q[x].wrapping_sub(delta(p));
                }
            }
            _ => unreachable!(),
        }
        if env.words_used() != dim + h {
            return Err(format!(
                "{} coins drawn for dimension {} and height {}",
                env.words_used(),
                dim,
                h
            ));
        }
        let mut out = vec![9i32; dim + h];
        for j in 0..h {
            let d = base16(q[j], per + 1)?;
            out[dim + j] = d[0];
            for k in 0..per {
                let i = (j % groups) * per + k;
                if i < dim {
                    if out[i] != 9 && out[i] != d[k + 1] {
                        return Err(format!("secret coordinate {} differs between columns", i));
                    }
                    out[i] = d[k + 1];
                }
            }
        }
        for (i, x) in out.iter().enumerate() {
            code[i] = code[i].wrapping_mul(3).wrapping_add((x + 1) as u128);
            seen[i] |= 1 << (x + 1);
        }
        c.state(&out);
        c.steps(1);
        c.trace();
    }
    if let Some(i) = seen.iter().position(|x| *x != 7) {
        return Err(format!("coordinate {} takes only the values {:#b} in {} outcomes", i, seen[i], runs));
    }
    let mut owner = std::collections::HashMap::new();
    for (i, x) in code.iter().enumerate() {
        if let Some(j) = owner.insert(*x, i) {
            let name = |i: usize| if i < dim { format!("secret coordinate {}", i) } else { format!("error {}", i - dim) };
            return Err(format!(
                "dim {} height {}: {} and {} are equal in {} independent outcomes",
                dim,
                h,
                name(j),
                name(i),
                runs
            ));
        }
    }
    c.outcome(&h64(&code));
    Ok(())
}

/// Parameter set after parameter set: each query and each offline term
/// depends on its own coins only, however many came before.
fn long(c: &mut Case, kv: bool) -> R {
    let (dim, m, p) = (2usize, 2usize, 9usize);
    let env = Env::install(&[], &[]);
    let db = db_index(m, 2, p, 4);
    let ip = IndexParams::new(&db, dim);
    let (kdb, kp, keys) = kv_params(dim, p, 1);
    let h = if kv { kdb.get_matrix_height() } else { m };
    // of a keyword query only the first coins vary
    let k = if kv { 6 } else { dim + m };
    let cols: Vec<Vec<u32>> = (0..h).map(|_| weights(dim)).collect();
    let cp = cp_from(&cols);
    let w = coin_words();
    let total = 3usize.pow(k as u32);
    let mut first: Vec<Option<(Vec<u32>, Vec<u32>)>> = vec![None; total];
    let n = if c.thorough() { 1_000_000 } else { 75_000 };
    let probe: Vec<u32> = (0..2).map(|j| 0x1234_5678u32.wrapping_mul(j + 3)).collect();
    for i in 0..n {
        let x = if i < total { i } else { (sm(i as u64) % total as u64) as usize };
        let mut r = x;
        let words: Vec<u32> = (0..dim + h)
            .map(|j| {
                let d = if j < k { r % 3 } else { j % 3 };
                r /= 3;
                w[d]
            })
            .collect();
        env.set_words(&words, None);
        let (q, a) = if kv {
            let mut qp = generate_kv_query_params(&cp, &kp).map_err(|e| e.to_string())?;
            let q = qp.generate_query(&keys[0]).map_err(|e| format!("query number {} refused: {}", i + 1, e))?;
            let a = qp.parse_resp_as_row(&resp_from(&probe), &keys[0]).map_err(|e| e.to_string())?;
            (q.as_slice().to_vec(), a)
        } else {
            let mut qp = generate_index_query_params(&cp, &ip).map_err(|e| e.to_string())?;
            let q = qp.generate_query(1).map_err(|e| format!("query number {} refused: {}", i + 1, e))?;
            (q.as_slice().to_vec(), qp.parse_resp_as_row(&resp_from(&probe)))
        };
        if env.words_used() != dim + h {
            return Err(format!("parameter set number {} draws {} coins instead of {}", i + 1, env.words_used(), dim + h));
        }
        match &first[x] {
            None => first[x] = Some((q, a)),
            Some(f) if f.0 != q || f.1 != a => {
                return Err(format!(
                    "parameter set number {}: the coins that gave the query {:x?} and decode {:?} now give {:x?} and {:?}",
                    i + 1, f.0, f.1, q, a
                ))
            }
            _ => {}
        }
        c.steps(1);
    }
    // distinct coins, distinct queries
    let mut seen = HashSet::new();
    for f in first.iter().flatten() {
        c.state(f);
        if !seen.insert(f.0.clone()) {
            return Err("two coin outcomes give one query".into());
        }
    }
    c.trace();
    Ok(())
}

/// A failing generator never yields a query.
fn failing(c: &mut Case, kv: bool) -> R {
    let (dim, p) = (3, 9);
    let db = db_index(2, 1, p, 5);
    let ip = IndexParams::new(&db, dim);
    let cpi = CommonParams::from(&ip);
    let (kdb, kp, keys) = kv_params(dim, p, 2);
    let cpk = CommonParams::from(&kp);
    let h = if kv { kdb.get_matrix_height() } else { 2 };
    for at in 0..(dim + h) as u64 {
        let env = Env::install(&[], &[]);
        env.0.borrow_mut().fail_at = Some(at);
        let r = no_panic(|| -> Result<(), String> {
            if kv {
                let mut qp = generate_kv_query_params(&cpk, &kp).map_err(|e| e.to_string())?;
                qp.generate_query(&keys[0]).map_err(|e| e.to_string())?;
            } else {
                let mut qp = generate_index_query_params(&cpi, &ip).map_err(|e| e.to_string())?;
                qp.generate_query(1).map_err(|e| e.to_string())?;
            }
            Ok(())
        });
        c.steps(1);
        c.state(&(kv, at));
        c.trace();
        if let Ok(Ok(())) = r {
            return Err(format!(
                "the generator fails from draw {} on, yet a query was produced",
                at
            ));
        }
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("index: all 3^(dim+m) coin outcomes, dim<=3, m<=3 (dim+m<=6; 8 thorough), every row, 8 matrices incl. extreme words, plaintext bits {1,2,8,10,24}");
    pl.bound(
        "keyword: all 3^13 coin outcomes of a one-key database (height 12), stored and foreign key",
    );
    pl.bound("sequences of 2 and 3 parameter sets of either kind: all outcomes of two coins each");
    pl.bound("larger shapes: each coin flipped alone; generator failing at every draw");
    pl.bound("scale: heights to 70003 and dimensions to 17000 over 72 fixed tapes: no two coordinates agree throughout, each takes all three values");
    pl.assume("coins are read from the generator as 32-bit words, as OsRng.next_u32 does");
    let lim = if th { 8 } else { 6 };
    for dim in 1..=4usize {
        for m in 1..=4usize {
            if dim + m > lim {
                continue;
            }
            for p in [1usize, 2, 8, 10, 24] {
                pl.case(format!("index dim={} m={} p={}", dim, m, p), move |c| {
                    index_all(c, dim, m, p)
                });
            }
        }
    }
    for p in if th { vec![8usize, 10, 13] } else { vec![10] } {
        for first in 0..3 {
            pl.case(format!("kv p={} s={}", p, first), move |c| {
                kv_all(c, p, first)
            });
        }
    }
    for len in 2..=3usize {
        for mask in 0..1usize << len {
            let kinds: Vec<bool> = (0..len).map(|i| mask >> i & 1 == 1).collect();
            pl.case(format!("sequence {:?}", kinds), move |c| {
                sequence(c, len, kinds)
            });
        }
    }
    for (dim, m) in [(1, 1), (2, 5), (7, 7), (16, 40), (40, 41), (100, 300)] {
        pl.case(format!("coordinates dim={} m={}", dim, m), move |c| {
            one_coin_one_coordinate(c, dim, m, false)
        });
    }
    for (dim, n) in [(1, 1), (5, 3), (12, 20), (50, 100)] {
        pl.case(format!("coordinates kv dim={} n={}", dim, n), move |c| {
            one_coin_one_coordinate(c, dim, n, true)
        });
    }
    for (dim, m) in [(1, 70_003), (3, 66_000), (300, 9_001), (9_001, 1_300), (17_000, 2_500)] {
        pl.case(format!("scale dim={} m={}", dim, m), move |c| no_two_alike(c, dim, m, false));
    }
    for (dim, n) in [(2, 60_000), (9_001, 1_300)] {
        pl.case(format!("scale kv dim={} n={}", dim, n), move |c| no_two_alike(c, dim, n, true));
    }
    pl.bound(format!("{} parameter sets in a row, each compared with the first one that had the same coins", if th { 1_000_000 } else { 75_000 }));
    for kv in [false, true] {
        pl.case(format!("long history kv={}", kv), move |c| long(c, kv));
    }
    for kv in [false, true] {
        pl.case(format!("failing generator kv={}", kv), move |c| {
            failing(c, kv)
        });
    }
}
