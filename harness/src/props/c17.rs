//! C17: the mod-p filter returns exactly the data stored for each key.
use crate::engine::*;
use crate::util::*;
use xorf::{BinaryFuseP32, Filter};

fn seed_no(i: u64) -> [u8; 32] {
    match i {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => TWIN_SEED,
        _ => {
            let mut s = [0u8; 32];
            for k in 0..4 {
                s[8 * k..8 * k + 8].copy_from_slice(&sm(i * 4 + k as u64 + 1000).to_le_bytes());
            }
            s
        }
    }
}
const LABELS: [u64; 12] = [
    0,
    1,
    2,
    1 << 32,
    u64::MAX,
    0x8000_0000_0000_0000,
    255,
    256,
    65_535,
    65_536,
    70_001,
    (1 << 32) + 70_001,
];

/// Judges a filter that was built.
fn judge(
    f: &BinaryFuseP32,
    seed: [u8; 32],
    keys: &[[u64; 4]],
    data: &[u32],
    label: u64,
    p: u64,
) -> R {
    let fm = f.get_fingerprints_mod();
    if fm.len() != f.len() || f.fingerprints.len() != f.len() {
        return Err(format!("{} reduced fingerprints of {}", fm.len(), f.len()));
    }
    for (a, b) in fm.iter().zip(f.fingerprints.iter()) {
        if *a as u64 != *b as u64 % p {
            return Err(format!("p={}: fingerprint {} reduced to {}", p, b, a));
        }
    }
    for (k, d) in keys.iter().zip(data) {
        let want = (*d as u64 % p) as u32;
        let got = f.retrieve(k, label);
        let ctx = || format!("p={} n={} label={} key {:x?} data {}", p, keys.len(), label, k, d);
        if got != want {
            return Err(format!("{}: retrieves {} instead of {}", ctx(), got, want));
        }
        let pos = BinaryFuseP32::hash_eval(
            k,
            seed,
            f.segment_length,
            f.segment_length_mask,
            f.segment_count_length,
        );
        if pos.len() != 3
            || pos[0] == pos[1]
            || pos[1] == pos[2]
            || pos[0] == pos[2]
            || pos.iter().any(|x| *x >= f.len())
        {
            return Err(format!("{}: positions {:?} of {}", ctx(), pos, f.len()));
        }
        if p.is_power_of_two() {
            let mask = BinaryFuseP32::get_key_fingerprint(k, seed, label);
            let sum = pos.iter().fold(mask as u32, |a, x| a.wrapping_add(fm[*x]));
            if sum as u64 % p != want as u64 {
                return Err(format!(
                    "{}: positions and mask give {} instead of {}",
                    ctx(),
                    sum as u64 % p,
                    want
                ));
            }
        }
    }
    Ok(())
}

/// Builds with each seed; at least one must work.
fn check(
    c: &mut Case,
    keys: &[[u64; 4]],
    data: &[u32],
    label: u64,
    p: u64,
    seeds: std::ops::Range<u64>,
    all: bool,
) -> R {
    let mut built = 0;
    for s in seeds.start..seeds.start + 200 {
        if (s >= seeds.end || !all) && built > 0 {
            break;
        }
        let seed = seed_no(s);
        let ctx = |e: String| format!("seed {}: {}", s, e);
        for form in 0..2 {
            let r = no_panic(|| {
                if form == 0 {
                    BinaryFuseP32::from_slice(seed, keys, data, label, p)
                } else {
                    BinaryFuseP32::from_vec(seed, keys.to_vec(), data, label, p)
                }
            })
            .map_err(|e| format!("n={} p={} label={}: {}", keys.len(), p, label, ctx(e)))?;
            c.steps(1);
            if let Ok(f) = r {
                judge(&f, seed, keys, data, label, p).map_err(ctx)?;
                c.steps(keys.len() as u64 * 2);
                built += 1;
                c.trace();
            }
        }
        c.state(&(keys.len(), h64(keys), data.len(), h64(data), label, p, s));
    }
    if built == 0 {
        return Err(format!("n={} p={}: no filter with 200 seeds", keys.len(), p));
    }
    c.outcome(&(p, label, data.first()));
    Ok(())
}

fn datas(n: usize, p: u64, kind: usize) -> Vec<u32> {
    (0..n as u64)
        .map(|i| match kind {
            0 => (sm(i ^ p) % p) as u32,
            1 => (p - 1) as u32,
            2 => 0,
            3 => u32::MAX.wrapping_sub(i as u32),
            4 => (p as u32).wrapping_add(i as u32),
            _ => i as u32,
        })
        .collect()
}

fn moduli(th: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (256..=if th { 70_000 } else { 5000 }).collect();
    for b in 11..=32 {
        for d in [-3i64, -2, -1, 0, 1, 2, 3] {
            let x = (1i64 << b) + d;
            if x <= 1 << 32 {
                v.push(x as u64);
            }
        }
    }
    for p in [1_000_003u64, 3_000_000_000, 1_431_655_765, 1_431_655_766, 2_863_311_531, 4_294_967_291] {
        v.push(p);
    }
    v.sort();
    v.dedup();
    v
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    pl.bound(format!("{} moduli (all of 256..{}, all within 3 of a power of two up to 2^32, others) x 5 sizes x 6 data shapes", moduli(th).len(), if th { 70_000 } else { 5000 }));
    pl.bound("all subsets of up to 4 (6 thorough) of 10 structured keys x 12 labels x 3 moduli x 4 seeds; all data assignments of 3 keys over {0,1,p-1,p,2^32-1}");
    pl.bound("8 key families x every size 1..600 (1..2500 thorough), sizes up to 300000; pairs of keys with equal hashes under a known seed");
    pl.assume("an unusable seed may be refused with an error; then another of 200 seeds must work");
    let ms = moduli(th);
    for (k, chunk) in ms.chunks(60).enumerate() {
        let chunk = chunk.to_vec();
        pl.case(format!("moduli {}", k), move |c| {
            for &p in &chunk {
                for n in [1usize, 2, 3, 17, 60] {
                    let keys = keyset(n % KEYKINDS, n);
                    for kind in 0..6 {
                        let l = LABELS[(kind + n) % 12];
                        check(c, &keys, &datas(n, p, kind), l, p, 3..4, false)?;
                    }
                }
            }
            c.sample(format!("moduli {}..{}", chunk[0], chunk[chunk.len() - 1]));
            Ok(())
        });
    }
    // structured keys: equal words, permuted words, zero, all ones
    for p in [256u64, 1000, 1 << 32] {
        pl.case(format!("subsets p={}", p), move |c| {
            let u: Vec<[u64; 4]> = vec![
                [0; 4],
                [u64::MAX; 4],
                [1, 2, 3, 4],
                [4, 3, 2, 1],
                [2, 1, 3, 4],
                [1, 1, 2, 2],
                [2, 2, 1, 1],
                [0, 0, 0, 1],
                [1, 0, 0, 0],
                [1, 2, 3, 5],
            ];
            for set in 1u32..1 << u.len() {
                if set.count_ones() > if c.thorough() { 6 } else { 4 } {
                    continue;
                }
                let keys: Vec<_> =
                    (0..u.len()).filter(|i| set >> i & 1 == 1).map(|i| u[i]).collect();
                for (i, l) in LABELS.iter().enumerate() {
                    check(c, &keys, &datas(keys.len(), p, i % 6), *l, p, 0..4, true)?;
                }
            }
            Ok(())
        });
        pl.case(format!("all data p={}", p), move |c| {
            let keys = keyset(0, 3);
            let al = [0u32, 1, (p - 1) as u32, p as u32, u32::MAX];
            c.explore(|c, ch| {
                let d: Vec<u32> = (0..3).map(|_| *ch.pick(&al)).collect();
                check(c, &keys, &d, 5, p, 3..6, true)
            })
        });
    }
    for kind in 0..KEYKINDS {
        pl.case(format!("sizes kind={}", kind), move |c| {
            for n in 1..=(if c.thorough() { 2500 } else { 600 }) {
                let keys = keyset(kind, n);
                let p = [1024u64, 1000, 1 << 31, 257][n % 4];
                check(c, &keys, &datas(n, p, n % 6), LABELS[n % 12], p, 3..4, false)?;
            }
            for n in [777usize, 1000, 5000, 20_000] {
                let keys = keyset(kind, n);
                check(c, &keys, &datas(n, 1 << 11, 0), 3, 1 << 11, 5..6, false)?;
            }
            Ok(())
        });
    }
    pl.case("large", |c| {
        let keys = keyset(0, 300_000);
        check(c, &keys, &datas(300_000, 1 << 10, 0), 3, 1 << 10, 5..6, false)?;
        check(c, &keys, &datas(300_000, 999, 0), 3, 999, 5..6, false)
    });
    pl.case("equal hashes", |c| {
        for i in 0..7 {
            for tail in [[0u64, 0], [1, 9], [u64::MAX, 5]] {
                let (a, b) = twins(i, tail);
                for extra in 0..4usize {
                    let mut keys = vec![a, b];
                    keys.extend(keyset(0, extra));
                    for p in [256u64, 1000, 1 << 16] {
                        check(c, &keys, &datas(keys.len(), p, 5), 1, p, 2..4, true)?;
                        keys.rotate_left(1);
                    }
                }
            }
        }
        Ok(())
    });
    pl.case("mismatched data", |c| {
        for n in 0..6usize {
            for d in 0..8usize {
                if n == d {
                    continue;
                }
                let keys = keyset(0, n);
                for form in 0..2 {
                    let r = no_panic(|| {
                        if form == 0 {
                            BinaryFuseP32::from_slice([3; 32], &keys, &vec![1; d], 0, 1024)
                        } else {
                            BinaryFuseP32::from_vec([3; 32], keys.clone(), &vec![1; d], 0, 1024)
                        }
                    })?;
                    if r.is_ok() {
                        return Err(format!("{} data words for {} keys are accepted", d, n));
                    }
                    c.steps(1);
                }
                c.state(&(n, d));
                c.trace();
            }
        }
        Ok(())
    });
}
