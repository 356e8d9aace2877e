//! C16: the false-positive rate is that of the fingerprint size.
//!
//! For each built filter the number of false positives in a whole universe
//! of non-members is counted, every key of it; the count is deterministic.
use crate::engine::*;
use crate::util::*;
use crate::zoo::*;

/// Universes of keys; members are cut out.
const UNIVERSES: usize = 8;
fn uni(u: usize, i: u64) -> u64 {
    match u {
        0 => i,
        1 => sm(i ^ 0x5555_0000_0000),
        2 => u64::MAX - i,
        3 => i << 32 | 7,
        4 => i.reverse_bits() ^ 1,
        5 => (i << 32) | i,
        6 => i << 12,
        _ => i.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xff,
    }
}
/// Most false positives tolerated among n lookups: 2^-bits, and six times
/// the standard deviation plus three.
fn most(bits: u32, n: f64) -> f64 {
    let e = n / 2f64.powi(bits as i32);
    e + 6.0 * e.sqrt() + 3.0
}
fn documented(bits: u32, n: f64) -> f64 {
    match bits {
        8 => n * 0.00406,
        16 => n * 0.000025,
        _ => 1.0,
    }
}
fn rate(c: &mut Case, f: usize, fam: usize, n: usize, log: u32) -> R {
    let ks = keys(fam, n);
    let flt = match build(f, (fam + n) % 3, &ks)? {
        Ok(x) => x,
        Err(_) => {
            c.outcome(&("refused", f));
            return Ok(());
        }
    };
    let mut member = ks.clone();
    member.sort();
    let total = 1u64 << log;
    let (mut all_n, mut all_fp) = (0u64, 0u64);
    for u in 0..UNIVERSES {
        let (mut asked, mut fp) = (0u64, 0u64);
        // keys next to members too
        let near = (ks.len() as u64).min(total / 8);
        for i in 0..total + near {
            let k = if i < total {
                uni(u, i)
            } else {
                ks[(i - total) as usize] ^ (1u64 << (u * 8 + 3))
            };
            if member.binary_search(&k).is_ok() {
                continue;
            }
            asked += 1;
            fp += (flt.look)(k) as u64;
        }
        let m = most(bits(f), asked as f64);
        if fp as f64 > m {
            return Err(format!(
                "{} of {} keys of family {}: {} of {} non-members of universe {} are reported as contained ({:.4}%), expected about {:.4}%",
                NAMES[f], n, fam, fp, asked, u,
                fp as f64 * 100.0 / asked as f64,
                100.0 / 2f64.powi(bits(f) as i32)
            ));
        }
        all_n += asked;
        all_fp += fp;
        c.steps(asked);
        c.states_by_construction(asked);
        c.outcome(&(f, fp));
        c.trace();
    }
    // over all universes together the documented rate holds too, where the
    // number of lookups makes it meaningful
    let e = all_n as f64 / 2f64.powi(bits(f) as i32);
    if all_fp as f64 > documented(bits(f), all_n as f64).max(e + 6.0 * e.sqrt() + 1.0) {
        return Err(format!(
            "{} of {} keys of family {}: {} of {} non-members are reported as contained",
            NAMES[f], n, fam, all_fp, all_n
        ));
    }
    c.sample(format!(
        "{} of {} keys of family {}: {} false positives in {} lookups ({:.5}%)",
        NAMES[f], n, fam, all_fp, all_n, all_fp as f64 * 100.0 / all_n as f64
    ));
    Ok(())
}

/// The hashing proxy over a hasher that loses nothing: for each member set,
/// every key that differs from a member in one, two or many bits of its hash.
fn proxy<F: xorf::Filter<u64> + From<Vec<u64>>>(c: &mut Case, b: u32, fam: usize, n: usize) -> R {
    use xorf::Filter;
    let ks = keys(fam, n);
    let p: xorf::HashProxy<u64, Ident, F> = xorf::HashProxy::from(&ks);
    let mut member = ks.clone();
    member.sort();
    let mut masks: Vec<u64> = vec![];
    for i in 0..64 {
        masks.push(1 << i);
        masks.push(u64::MAX << i);
        for j in 0..i {
            masks.push(1 << i | 1 << j);
        }
    }
    let (mut total, mut wrong) = (0u64, 0u64);
    // by mask: a hash bit that does not count shows in its own share
    for m in masks {
        let (mut asked, mut fp) = (0u64, 0u64);
        for k in &ks {
            let x = k ^ m;
            if member.binary_search(&x).is_ok() {
                continue;
            }
            asked += 1;
            fp += p.contains(&x) as u64;
        }
        if fp as f64 > most(b, asked as f64) {
            return Err(format!(
                "hash proxy, {} bits, {} keys of family {}: {} of {} non-members differing from members in bits {:#x} are reported as contained",
                b, n, fam, fp, asked, m
            ));
        }
        total += asked;
        wrong += fp;
    }
    for u in 0..UNIVERSES {
        let (mut asked, mut fp) = (0u64, 0u64);
        for i in 0..(if c.thorough() { 1u64 << 20 } else { 1 << 16 }) {
            let x = uni(u, i);
            if member.binary_search(&x).is_ok() {
                continue;
            }
            asked += 1;
            fp += p.contains(&x) as u64;
        }
        if fp as f64 > most(b, asked as f64) {
            return Err(format!(
                "hash proxy, {} bits, {} keys of family {}: {} of {} non-members of universe {} are reported as contained",
                b, n, fam, fp, asked, u
            ));
        }
        total += asked;
        wrong += fp;
        c.outcome(&(b, u, fp));
    }
    c.steps(total);
    c.states_by_construction(total);
    c.trace();
    c.sample(format!("hash proxy, {} bits, {} keys of family {}: {} false positives in {} lookups", b, n, fam, wrong, total));
    Ok(())
}
/// Proxies over the usual hasher, for keys that are strings, byte strings,
/// numbers and pairs: near misses of the members.
fn proxy_types(c: &mut Case) -> R {
    use std::collections::hash_map::DefaultHasher;
    use xorf::{Filter, HashProxy, Xor16};
    let n = 500u64;
    let (mut asked, mut fp) = (0u64, 0u64);
    let names: Vec<String> = (0..n).map(|i| format!("user-{}", i)).collect();
    let f: HashProxy<String, DefaultHasher, Xor16> = HashProxy::from(&names);
    for i in 0..40_000u64 {
        for x in [format!("user-{}", n + i), format!("User-{}", i), format!("user-{} ", i), format!("user-0{}", i), format!("user{}", i)] {
            asked += 1;
            fp += f.contains(&x) as u64;
        }
    }
    let pairs: Vec<(u32, u32)> = (0..n as u32).map(|i| (i, i + 1)).collect();
    let f: HashProxy<(u32, u32), DefaultHasher, Xor16> = HashProxy::from(&pairs);
    for i in 0..100_000u32 {
        for x in [(i + 1, i), (i, i), (i, i + 2)] {
            asked += 1;
            fp += f.contains(&x) as u64;
        }
    }
    let blobs: Vec<Vec<u8>> = (0..n).map(|i| sm(i).to_le_bytes().to_vec()).collect();
    let f: HashProxy<Vec<u8>, DefaultHasher, Xor16> = HashProxy::from(&blobs);
    for b in &blobs {
        for bit in 0..64 {
            let mut x = b.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            asked += 1;
            fp += f.contains(&x) as u64;
        }
        for l in 0..8 {
            asked += 1;
            fp += f.contains(&b[..l].to_vec()) as u64;
        }
    }
    if fp as f64 > most(16, asked as f64) {
        return Err(format!("hash proxy over strings, pairs and byte strings: {} of {} non-members are reported as contained", fp, asked));
    }
    c.steps(asked);
    c.states_by_construction(asked);
    c.trace();
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    pl.bound("hash proxy: every key whose hash differs from a member's in one or two bits, in a prefix or suffix of bits, and 8 universes, for 3 sizes and families; strings, pairs and byte strings next to the members");
    for (k, (fam, n)) in [(1usize, 300usize), (0, 1000), (7, 3000)].into_iter().enumerate() {
        pl.case(format!("proxy Xor8 {}", k), move |c| proxy::<xorf::Xor8>(c, 8, fam, n));
        pl.case(format!("proxy Xor16 {}", k), move |c| proxy::<xorf::Xor16>(c, 16, fam, n));
        pl.case(format!("proxy Xor32 {}", k), move |c| proxy::<xorf::Xor32>(c, 32, fam, n));
    }
    pl.case("proxy over several key types", |c| proxy_types(c));
    let th = pl.thorough();
    pl.bound(format!("every key of 8 universes of 2^{} keys each (counters, multiples, reversed, hashed, at both ends) and the members' neighbours, for 9 filters of several sizes and families", if th { "23 (16-bit and 32-bit: 2^24)" } else { "19 (16-bit and 32-bit: 2^21)" }));
    pl.bound("sizes 0, 1, 2, 3, 10, 100, 1000, 10000 (fuse: 150000)");
    pl.assume("a count is accepted up to six standard deviations above 2^-N of the lookups, and the documented rate over all universes");
    for f in 0..9 {
        let log = match (bits(f), th) {
            (8, false) => 19,
            (8, true) => 23,
            (_, false) => 21,
            (_, true) => 24,
        };
        let ns: Vec<usize> = if is_fuse(f) {
            vec![150_000]
        } else if th {
            vec![0, 1, 2, 3, 5, 10, 31, 32, 33, 100, 300, 1000, 3000, 10_000, 100_000]
        } else {
            vec![0, 1, 2, 3, 10, 100, 1000, 10_000]
        };
        for n in ns {
            let fams: Vec<usize> = if th && bits(f) == 8 {
                (0..FAMILIES).collect()
            } else {
                vec![n % FAMILIES, 1, 3]
            };
            let mut done = vec![];
            for fam in fams {
                if done.contains(&fam) || (n == 0 && !done.is_empty()) {
                    continue;
                }
                done.push(fam);
                pl.case(format!("{} n={} family {}", NAMES[f], n, fam), move |c| rate(c, f, fam, n, log));
            }
        }
    }
}
