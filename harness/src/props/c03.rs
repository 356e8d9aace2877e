//! C03: a keyword database can be built for every set of distinct keys.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{KVDatabase, KeyValue};
use xorf::BinaryFuseP32;

fn seed_no(i: u64) -> [u8; 32] {
    let mut s = [0u8; 32];
    for k in 0..4 {
        s[8 * k..8 * k + 8].copy_from_slice(&sm(i * 4 + k as u64).to_le_bytes());
    }
    s
}

/// Seeds with which the keys cannot and can be mapped.
fn bad_and_good(keys: &[[u64; 4]], want: usize, tries: u64) -> (Vec<[u8; 32]>, Option<[u8; 32]>) {
    let data = vec![0u32; keys.len()];
    let (mut bad, mut good) = (vec![], None);
    for i in 0..tries {
        let s = seed_no(i);
        match BinaryFuseP32::from_slice(s, keys, &data, 0, 1024) {
            Ok(_) => {
                if good.is_none() {
                    good = Some(s)
                }
            }
            Err(_) => bad.push(s),
        }
        if bad.len() >= want && good.is_some() {
            break;
        }
    }
    (bad, good)
}

/// Every key is retrievable from the matrix with public parameters alone.
pub fn lookup_all(c: &mut Case, db: &KVDatabase, kvs: &[KeyValue], p: usize) -> R {
    let fp = db.get_filter_params();
    for kv in kvs {
        let pos = fp.get_hash_evals(&kv.key);
        for (j, want) in kv.value.iter().enumerate() {
            let col = &db.entries[j];
            let mut sum = 0u32;
            for &x in &pos {
                if x >= col.len() {
                    return Err(format!("key {:x?}: position {} outside", kv.key, x));
                }
                sum = sum.wrapping_add(col[x]);
            }
            let got = (fp.unmask_value(sum, &kv.key, j as u64) as u64 % (1u64 << p)) as u32;
            if got != *want {
                return Err(format!(
                    "n={} key {:x?} column {}: {} instead of {}",
                    kvs.len(),
                    kv.key,
                    j,
                    got,
                    want
                ));
            }
        }
        c.steps(1);
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("runs of k unusable filter seeds (k = 0..12; 0..64 thorough) before a usable one, for 8 key families x sizes 2..24, over every rotation of the unusable seeds found; all keys looked up and retrieved");
    pl.bound(
        "every set size 1..200 (1..1200 thorough) of 8 key families under pseudo-random generators",
    );
    pl.assume("an unusable seed is one with which BinaryFuseP32::from_slice returns an error for the keys");

    for kind in 0..KEYKINDS {
        for n in [2usize, 3, 4, 5, 6, 8, 12, 24] {
            pl.case(format!("bad seeds kind={} n={}", kind, n), move |c| {
                let keys = keyset(kind, n);
                let (bad, good) = bad_and_good(&keys, 12, if c.thorough() { 20_000 } else { 1500 });
                let good = good.ok_or("no usable seed among those tried")?;
                let (kvs, el) = kvs_of(&keys, 0, 20, 10);
                if bad.is_empty() {
                    return Ok(());
                }
                let ks: Vec<usize> = if c.thorough() {
                    (0..=64).collect()
                } else {
                    vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 12]
                };
                for &k in &ks {
                    for rot in 0..bad.len() {
                        let mut seeds: Vec<[u8; 32]> =
                            (0..k).map(|i| bad[(i + rot) % bad.len()]).collect();
                        // Twice: the generator that fills unused filter slots reseeds itself
                        // now and then and may take one.
                        seeds.push(good);
                        seeds.push(good);
                        let env = Env::install(&[], &seeds);
                        getrandom::set_thread_stream(5);
                        let s = KVShard::new(&kvs, 2, n, 20, 10).map_err(|e| {
                            format!("{} unusable seeds, then a usable one: {}", k, e)
                        })?;
                        let used = s.get_db().get_filter_params().seed;
                        if used != good {
                            return Err(format!(
                "after {} unusable seeds the filter uses {:x?}, the generator offered {:x?}",
                k, used, good
              ));
                        }
                        lookup_all(c, s.get_db(), &kvs, 10)
                            .map_err(|e| format!("{} unusable seeds: {}", k, e))?;
                        if rot == 0 {
                            let cp = CommonParams::from(s.get_base_params());
                            for (i, kv) in kvs.iter().enumerate() {
                                kv_roundtrip(
                                    c,
                                    &s,
                                    s.get_base_params(),
                                    &cp,
                                    &kv.key,
                                    &kv.value,
                                    Some(&el[i]),
                                )
                                .map_err(|e| format!("{} unusable seeds: {}", k, e))?;
                            }
                        }
                        drop(env);
                        c.state(&(k, rot));
                        c.outcome(&used);
                        c.steps(1 + k as u64);
                        c.trace();
                    }
                }
                c.sample(format!(
                    "{} unusable seeds known, first {:x?}",
                    bad.len(),
                    &bad[0][..8]
                ));
                Ok(())
            });
        }
    }

    // every size
    let nmax = if th { 1200usize } else { 200 };
    for kind in 0..KEYKINDS {
        for part in 0..4usize {
            pl.case(format!("sizes kind={} part={}", kind, part), move |c| {
                let mut n = 1 + part;
                while n <= nmax {
                    let keys = keyset(kind, n);
                    let (kvs, _) = kvs_of(&keys, kind, 17, 9);
                    for stream in 0..(if n < 60 { 8u64 } else { 2 }) {
                        getrandom::set_thread_stream(stream * 7919 + n as u64);
                        let env = Env::install(&[], &[]);
                        let db = KVDatabase::new(&kvs, n, 17, 9)
                            .map_err(|e| format!("n={} stream={}: {}", n, stream, e))?;
                        let calls = env.0.borrow().log.iter().filter(|&&x| x == 32).count();
                        if calls > 200 {
                            return Err(format!("n={}: {} seeds drawn", n, calls));
                        }
                        lookup_all(c, &db, &kvs, 9)?;
                        c.state(&(n, stream, db.get_filter_params().seed));
                        c.outcome(&(db.get_matrix_height(), calls));
                        c.steps(1);
                        c.trace();
                    }
                    n += 4;
                }
                Ok(())
            });
        }
    }
    // large sets
    let big: &[usize] = if th {
        &[5_000, 20_000, 100_000, 400_000]
    } else {
        &[5_000, 20_000, 60_000]
    };
    for &n in big {
        pl.case(format!("large n={}", n), move |c| {
            let keys = keyset(0, n);
            let (kvs, _) = kvs_of(&keys, 0, 9, 9);
            for stream in 0..3u64 {
                getrandom::set_thread_stream(stream);
                let _env = Env::install(&[], &[]);
                let db = KVDatabase::new(&kvs, n, 9, 9).map_err(|e| e.to_string())?;
                lookup_all(c, &db, &kvs, 9)?;
                c.state(&(n, stream));
                c.trace();
            }
            Ok(())
        });
    }
    // distinct names are distinct keys, however similar
    pl.case("similar names", |c| super::c02::names(c));
    pl.bound("names that normalizations would merge (case, blanks, NUL, padding, unicode forms, lengths to 65537), together and in groups of 3");
    // string constructor: the same guarantee
    pl.case("strings with unusable seeds", move |c| {
        for n in [2usize, 3, 5] {
            let names: Vec<String> = (0..n).map(|i| format!("k{}", i)).collect();
            let keys: Vec<[u64; 4]> = names
                .iter()
                .map(|s| sha256_into_u64_sized(s.as_bytes()).unwrap())
                .collect();
            let (bad, good) = bad_and_good(&keys, 6, 2000);
            let good = good.ok_or("no usable seed")?;
            if bad.is_empty() {
                continue;
            }
            let el = elements(0, n, 16);
            for k in 0..=8usize {
                let mut seeds: Vec<[u8; 32]> = (0..k).map(|i| bad[i % bad.len()]).collect();
                // Twice: the generator that fills unused filter slots reseeds itself
                // now and then and may take one.
                seeds.push(good);
                seeds.push(good);
                let _env = Env::install(&[], &seeds);
                let s = KVShard::from_base64_strings(&names, &b64s(&el), 2, n, 16, 9)
                    .map_err(|e| format!("n={} k={}: {}", n, k, e))?;
                let cp = CommonParams::from(s.get_base_params());
                for i in 0..n {
                    kv_roundtrip(
                        c,
                        &s,
                        s.get_base_params(),
                        &cp,
                        &keys[i],
                        &digits(&el[i], 16, 9),
                        Some(&el[i]),
                    )?;
                }
            }
        }
        Ok(())
    });
}
