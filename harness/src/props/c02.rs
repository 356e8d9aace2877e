//! C02: keyword retrieval returns exactly the value stored under the key.
use crate::engine::*;
use crate::util::*;
use keyword_pir_lwe::api::*;

fn check_set(
    c: &mut Case,
    keys: &[[u64; 4]],
    content: usize,
    elem_bits: usize,
    p: usize,
    dim: usize,
    stream: u64,
    stride: usize,
) -> R {
    getrandom::set_thread_stream(stream);
    let (kvs, el) = kvs_of(keys, content, elem_bits, p);
    let ctx = |x: String| {
        format!(
            "n={} e={} p={} dim={} content={} stream={}: {}",
            keys.len(),
            elem_bits,
            p,
            dim,
            content,
            stream,
            x
        )
    };
    let env = Env::install(&[], &[]);
    let s = KVShard::new(&kvs, dim, keys.len(), elem_bits, p)
        .map_err(|e| ctx(format!("build: {}", e)))?;
    let cp = CommonParams::from(s.get_base_params());
    let h = cp.as_matrix().len();
    if !noise_ok(h, p) {
        return Ok(());
    }
    let w = coin_words();
    for (k, kv) in kvs.iter().enumerate() {
        if k % stride != 0 && k + 1 != kvs.len() {
            continue;
        }
        for t in 0..3usize {
            match t {
                0 => env.set_words(&vec![w[1]; h + dim], None),
                1 => env.set_words(&vec![w[2]; h + dim], None),
                _ => env.set_words(&[], None),
            }
            kv_roundtrip(
                c,
                &s,
                s.get_base_params(),
                &cp,
                &kv.key,
                &kv.value,
                Some(&el[k]),
            )
            .map_err(|x| ctx(format!("tape={}: {}", t, x)))?;
        }
    }
    Ok(())
}

/// SHA-256 of a name as four little-endian words.
fn hashed(name: &str) -> [u64; 4] {
    use sha2::{Digest, Sha256};
    let d = Sha256::digest(name.as_bytes());
    let mut key = [0u64; 4];
    for w in 0..4 {
        for k in 0..8 {
            key[w] |= (d[8 * w + k] as u64) << (8 * k);
        }
    }
    key
}
/// Distinct names, many of which become equal under some normalization.
fn awkward() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for base in ["key", "Key", "KEY", "a", "A", "0", "00", "1", "+1", "1.0", "AA==", "AA", "AAAA", "\u{e9}", "e\u{301}", "\u{fb01}", "fi", "\u{1f600}"] {
        for pre in ["", " ", "\t", "\n", "\0", "\u{feff}", "\u{a0}", "/", "\"", "=", "-"] {
            v.push(format!("{}{}", pre, base));
            v.push(format!("{}{}", base, pre));
        }
    }
    for pre in ["", " ", "  ", "\t", "\n", "\r\n", "\0", "\0\0"] {
        v.push(pre.to_string());
    }
    for n in [55usize, 56, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 65_535, 65_536, 65_537] {
        v.push("x".repeat(n));
        v.push(format!("{}y", "x".repeat(n - 1)));
        v.push(format!("y{}", "x".repeat(n - 1)));
    }
    v.sort();
    v.dedup();
    v
}
/// Every one of the awkward names keeps its own value, through the library's
/// hashing, through both constructors.
pub fn names(c: &mut Case) -> R {
    let all = awkward();
    let dir = scratch("c02n")?;
    let (e, p) = (48usize, 10usize);
    // together, in small groups of neighbours in sorted order, and reversed
    let mut sets: Vec<Vec<String>> = vec![all.clone(), all.iter().rev().cloned().collect()];
    for g in all.chunks(3) {
        sets.push(g.to_vec());
    }
    for (k, names) in sets.iter().enumerate() {
        let n = names.len();
        getrandom::set_thread_stream(k as u64 + 1);
        let el = elements(0, n, e);
        let vals = b64s(&el);
        let env = Env::install(&[], &[]);
        let a = KVShard::from_base64_strings(names, &vals, 2, n, e, p)
            .map_err(|x| format!("from_base64_strings of {} names: {}", n, x))?;
        let recs: Vec<_> = names
            .iter()
            .zip(&vals)
            .map(|(k, v)| serde_json::json!({"key": k, "value": v}))
            .collect();
        let f = format!("{}/kv-{}.json", dir.path, k);
        std::fs::write(&f, serde_json::to_string(&recs).unwrap()).map_err(|e| e.to_string())?;
        let b = KVShard::from_json_file(&f, 2, n, e, p)
            .map_err(|x| format!("from_json_file of {} names: {}", n, x))?;
        for s in [&a, &b] {
            let cp = CommonParams::from(s.get_base_params());
            for i in 0..n {
                env.set_words(&[], None);
                let key = hashed(&names[i]);
                if sha256_into_u64_sized(names[i].as_bytes()).map_err(|e| e.to_string())? != key {
                    return Err(format!("name {:?} is not hashed with SHA-256", names[i]));
                }
                kv_roundtrip(c, s, s.get_base_params(), &cp, &key, &digits(&el[i], e, p), Some(&el[i]))
                    .map_err(|x| format!("name {:?} of {}: {}", trunc(&names[i].chars().collect::<Vec<_>>()), n, x))?;
            }
        }
    }
    c.sample(format!("{} names in {} databases", all.len(), 2 * sets.len()));
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound("all 3^13 coin outcomes of a one-key database (dim 1, filter height 12) for two plaintext sizes");
    pl.bound("8 structured key families (random, counters, all word orders, repeated words, single bits, constant words, one-bit neighbours) x set sizes 1..24 and up to 4096 x several filter seeds x extreme coin tapes, every key queried");
    pl.bound(
        "dense grid of element bits 1..72 x plaintext bits (8..15; 1..15 without debug assertions)",
    );
    pl.bound("scale: shapes beyond 2^8, 2^16 columns, 2^24 bits, 70000 keys, dimension 70000; names that normalizations would merge (case, blanks, NUL, unicode forms, lengths to 65537)");
    pl.assume("plaintext bits below 8 only in the build without debug assertions: xorf documents a modulus of at least 256 and asserts it in debug builds");

    // all coins for one key
    for p in [9usize, 12] {
        for first in 0..3usize {
            pl.case(format!("all-coins n=1 p={} s={}", p, first), move |c| {
                let keys = keyset(0, 1);
                let (kvs, el) = kvs_of(&keys, 1, 12, p);
                let env = Env::install(&[], &[]);
                let s = KVShard::new(&kvs, 1, 1, 12, p).map_err(|e| e.to_string())?;
                let cp = CommonParams::from(s.get_base_params());
                let h = cp.as_matrix().len();
                // Should the filter grow, the first 12 coins are enumerated.
                let n = h.min(12);
                c.explore(|c, ch| {
                    let mut t = vec![first];
                    t.extend((0..n).map(|_| ch.choose(3)));
                    env.set_words(&coins(&t), None);
                    kv_roundtrip(
                        c,
                        &s,
                        s.get_base_params(),
                        &cp,
                        &kvs[0].key,
                        &kvs[0].value,
                        Some(&el[0]),
                    )
                    .map_err(|x| format!("coins {:?}: {}", t, x))
                })
            });
        }
    }

    // structured key families
    let sizes: Vec<usize> = (1..=24).collect();
    for kind in 0..KEYKINDS {
        let sizes = sizes.clone();
        pl.case(format!("keys kind={} small", kind), move |c| {
            for &n in &sizes_of(c, &sizes) {
                let keys = keyset(kind, n);
                for stream in 0..(if c.thorough() { 24 } else { 4u64 }) {
                    check_set(c, &keys, 0, 20, 10, 2, stream * 1000 + n as u64, 1)?;
                }
            }
            c.sample(format!("family {} e.g. {:x?}", kind, keyset(kind, 3)));
            Ok(())
        });
        let big: &[usize] = if th {
            &[64, 100, 255, 256, 500, 1000, 2047, 4096]
        } else {
            &[64, 100, 257, 1000]
        };
        for &n in big {
            pl.case(format!("keys kind={} n={}", kind, n), move |c| {
                let keys = keyset(kind, n);
                check_set(c, &keys, 0, 20, 9, 2, n as u64, 1 + n / 200)
            });
        }
    }

    // shapes
    let lo = if checked_build() { 8 } else { 1 };
    for p in lo..=15usize {
        pl.case(format!("grid p={}", p), move |c| {
            let emax = if c.thorough() { 96 } else { 48 };
            for elem_bits in 1..=emax {
                for n in [1usize, 3] {
                    for content in 0..KINDS {
                        let keys = keyset(content, n);
                        check_set(
                            c,
                            &keys,
                            content,
                            elem_bits,
                            p,
                            1 + elem_bits % 3,
                            (elem_bits * 31 + n) as u64,
                            1,
                        )?;
                    }
                }
            }
            Ok(())
        });
    }

    // beyond the sizes at which a narrower integer or a float would wrap
    let mut scale: Vec<(usize, usize, usize, usize)> = vec![
        (1, 300 * 8, 8, 1),
        (3, 300 * 11 + 5, 11, 300),
        (1, 70_000 * 8, 8, 1),
        (2, 65_600 * 13 + 1, 13, 2),
        (1, (1 << 24) + 57, 13, 1),
        // quotients of element and plaintext bits next to whole numbers
        (1, 14 * (1 << 21) + 1, 14, 1),
        (20_000, 17, 8, 1),
        (1, 12, 12, 70_000),
    ];
    if !checked_build() {
        scale.push((70_000, 7, 6, 1));
        scale.push((2, 70_000, 1, 1));
    }
    for (n, e, p, dim) in scale {
        pl.case(format!("scale n={} e={} p={} dim={}", n, e, p, dim), move |c| {
            check_set(c, &keyset(0, n), 0, e, p, dim, 77, 1 + n / 6)
        });
    }
    // names that a careless reading would merge
    pl.case("names", |c| names(c));

    // constructors from base64 strings and from a file
    pl.case("equal hashes", |c| {
        for i in 0..7 {
            let (a, b) = twins(i, [0, 0]);
            for extra in 0..3usize {
                let mut keys = vec![a, b];
                keys.extend(keyset(0, extra));
                let (e, p) = (22, 11);
                let (kvs, el) = kvs_of(&keys, 0, e, p);
                // Twice: the filler of unused fingerprints may take one.
                let env = Env::install(&[], &[TWIN_SEED, TWIN_SEED]);
                let s = match KVShard::new(&kvs, 2, keys.len(), e, p) {
                    Ok(s) => s,
                    Err(x) => return Err(format!("no shard: {}", x)),
                };
                let cp = CommonParams::from(s.get_base_params());
                for k in 0..keys.len() {
                    env.set_words(&[], None);
                    kv_roundtrip(c, &s, s.get_base_params(), &cp, &keys[k], &kvs[k].value, Some(&el[k]))
                        .map_err(|x| format!("keys with equal hashes under the first seed: {}", x))?;
                }
            }
        }
        Ok(())
    });
    pl.case("base64 and file constructors", move |c| {
        let dir = scratch("c02")?;
        for n in [1usize, 2, 3, 10, 40] {
            for (elem_bits, p) in [(8usize, 8usize), (64, 10), (40, 11), (200, 9)] {
                let names: Vec<String> = (0..n)
                    .map(|i| match i {
                        0 => "".to_string(),
                        1 => "a".to_string(),
                        2 => b64(b"\x00\x01"),
                        _ => format!("key-{}", sm(i as u64)),
                    })
                    .collect();
                let el = elements(0, n, elem_bits);
                let vals = b64s(&el);
                let env = Env::install(&[], &[]);
                let a = KVShard::from_base64_strings(&names, &vals, 3, n, elem_bits, p)
                    .map_err(|e| format!("from_base64_strings: {}", e))?;
                let recs: Vec<_> = names
                    .iter()
                    .zip(&vals)
                    .map(|(k, v)| serde_json::json!({"key": k, "value": v}))
                    .collect();
                let f = format!("{}/kv-{}-{}.json", dir.path, n, elem_bits);
                std::fs::write(&f, serde_json::to_string(&recs).unwrap())
                    .map_err(|e| e.to_string())?;
                let b = KVShard::from_json_file(&f, 3, n, elem_bits, p)
                    .map_err(|e| format!("from_json_file: {}", e))?;
                for s in [&a, &b] {
                    let cp = CommonParams::from(s.get_base_params());
                    for i in 0..n {
                        env.set_words(&[], None);
                        use sha2::{Digest, Sha256};
                        let d = Sha256::digest(names[i].as_bytes());
                        let mut key = [0u64; 4];
                        for w in 0..4 {
                            for k in 0..8 {
                                key[w] |= (d[8 * w + k] as u64) << (8 * k);
                            }
                        }
                        let lib = sha256_into_u64_sized(names[i].as_bytes())
                            .map_err(|e| e.to_string())?;
                        if lib != key {
                            return Err(format!(
                                "sha256_into_u64_sized({:?}) = {:x?}, SHA-256 words are {:x?}",
                                names[i], lib, key
                            ));
                        }
                        kv_roundtrip(
                            c,
                            s,
                            s.get_base_params(),
                            &cp,
                            &key,
                            &digits(&el[i], elem_bits, p),
                            Some(&el[i]),
                        )
                        .map_err(|x| format!("n={} e={} p={} key {}: {}", n, elem_bits, p, i, x))?;
                    }
                }
            }
        }
        Ok(())
    });
}

fn sizes_of(c: &Case, s: &[usize]) -> Vec<usize> {
    if c.thorough() {
        (1..=64).collect()
    } else {
        s.to_vec()
    }
}
