//! C15: filter construction ends in a filter or an error for all distinct
//! keys, and lookups never panic.
use super::c14::{hard, large, progressions, proxies, sizes, subsets};
use crate::engine::*;
use crate::util::*;
use crate::zoo::*;
use xorf::{BinaryFuseP32, Filter};

/// Keys looked up in every constructed filter.
fn probes() -> Vec<u64> {
    let mut v = vec![0u64, 1, u64::MAX, 1 << 32, 1 << 63];
    for s in 0..4 {
        for h in [0u64, u64::MAX, 1, u64::MAX << 32, 0xffff_ffff, 1 << 63, (1 << 63) - 1, u64::MAX << 18, (1 << 18) - 1] {
            v.push(key_for(h, s));
        }
    }
    for i in 0..12 {
        v.push(sm(i + 999));
    }
    v
}
fn constructs(c: &mut Case, f: usize, form: usize, keys: &[u64], what: &dyn Fn() -> String) -> Result<bool, String> {
    thread_local!(static P: Vec<u64> = probes());
    let name = || format!("{} from {} ({})", NAMES[f], FORMS[form], what());
    match build(f, form, keys).map_err(|e| format!("{}: construction panics: {}", name(), e))? {
        Err(e) => {
            c.steps(1);
            if !is_fuse(f) {
                return Err(format!("{}: construction of {} keys fails: {}", name(), keys.len(), e));
            }
            Ok(false)
        }
        Ok(flt) => {
            P.with(|p| {
                no_panic(|| {
                    for k in p.iter().chain(keys) {
                        let _ = (flt.look)(*k);
                    }
                })
                .map_err(|e| format!("{}: lookup panics: {}", name(), e))
            })?;
            c.steps(2);
            c.state(&(f, form, keys));
            c.trace();
            Ok(true)
        }
    }
}

fn seed_no(i: u64) -> [u8; 32] {
    let mut s = [0u8; 32];
    for k in 0..4 {
        s[8 * k..8 * k + 8].copy_from_slice(&sm(i * 4 + k as u64 + 77).to_le_bytes());
    }
    s
}
fn build_p(
    vec: bool,
    seed: [u8; 32],
    keys: &[[u64; 4]],
    data: &[u32],
    label: u64,
    pm: u64,
) -> Result<Result<BinaryFuseP32, String>, String> {
    no_panic(|| {
        if vec {
            BinaryFuseP32::from_vec(seed, keys.to_vec(), data, label, pm)
        } else {
            BinaryFuseP32::from_slice(seed, keys, data, label, pm)
        }
        .map_err(|e| e.to_string())
    })
}
fn after(c: &mut Case, f: &BinaryFuseP32, keys: &[[u64; 4]], what: &str) -> R {
    no_panic(|| {
        for k in keys.iter().chain(keyset(5, 64).iter()).chain(keyset(0, 40).iter()) {
            for label in [0, 1, u64::MAX] {
                let _ = f.retrieve(k, label);
            }
        }
        let _ = f.get_fingerprints_mod();
        let _ = f.len();
    })
    .map_err(|e| format!("{}: lookup panics: {}", what, e))?;
    c.steps(1);
    c.trace();
    Ok(())
}
/// Data that matches the keys in number, or not.
fn mismatch(c: &mut Case, top: usize, kind: usize) -> R {
    let keys = keyset(kind, top);
    let data: Vec<u32> = (0..top as u32 + 70).map(|i| i * 7 % 256).collect();
    for n in 0..=top {
        let mut ms: Vec<usize> = (0..=top).collect();
        ms.extend([n + 32, n + 64, 2 * n]);
        for m in ms {
            if m > data.len() {
                continue;
            }
            for vec in [false, true] {
                let what = format!("BinaryFuseP32::{} of {} keys and {} data", if vec { "from_vec" } else { "from_slice" }, n, m);
                match build_p(vec, seed_no(n as u64), &keys[..n], &data[..m], 3, 1024)
                    .map_err(|e| format!("{}: panics: {}", what, e))?
                {
                    Ok(f) => {
                        if n != m {
                            return Err(format!("{}: accepted", what));
                        }
                        after(c, &f, &keys[..n], &what)?;
                    }
                    Err(_) => {}
                }
                c.steps(1);
                c.state(&(n, m, vec, kind));
            }
        }
    }
    Ok(())
}
fn modp_sizes(c: &mut Case, kind: usize, top: usize) -> R {
    let keys = keyset(kind, top);
    let data: Vec<u32> = (0..top as u32).map(|i| i % 251).collect();
    let mut built = 0u64;
    for n in 0..=top {
        let mut any = n == 0;
        for s in 0..24u64 {
            let what = format!("BinaryFuseP32 of {} keys of kind {} seed {}", n, kind, s);
            let pm = [256u64, 1024, 1 << 31, 1 << 32, 257][(n + s as usize) % 5];
            match build_p(s % 2 == 1, seed_no(s + 100 * n as u64), &keys[..n], &data[..n], s, pm)
                .map_err(|e| format!("{}: panics: {}", what, e))?
            {
                Ok(f) => {
                    any = true;
                    built += 1;
                    if n < 100 || s == 0 {
                        after(c, &f, &keys[..n], &what)?;
                    }
                    c.state(&(kind, n, s));
                    if s >= 2 {
                        break;
                    }
                }
                Err(_) => {}
            }
            c.steps(1);
        }
        if !any {
            return Err(format!("BinaryFuseP32 of {} keys of kind {}: 24 seeds fail", n, kind));
        }
    }
    c.outcome(&built);
    Ok(())
}
/// Many keys that share a slot under the seed used.
fn crowded(c: &mut Case, n: usize, which: usize, s: u64) -> R {
    let seed = seed_no(s);
    // the geometry of a filter of n keys
    let all = keyset(0, n);
    let zero = vec![0u32; n];
    let (mut sl, mut slm, mut scl) = (4, 3, 4);
    let mut found = false;
    for t in 0..40 {
        if let Ok(f) = BinaryFuseP32::from_slice(seed_no(1000 + t), &all, &zero, 0, 1024) {
            sl = f.segment_length;
            slm = f.segment_length_mask;
            scl = f.segment_count_length;
            found = true;
            break;
        }
    }
    if !found {
        return Ok(());
    }
    let mut keys: Vec<[u64; 4]> = vec![];
    let mut slot = None;
    let mut i = 0u64;
    let share = n.saturating_sub(n / 50 + 1).max(1);
    while keys.len() < share && i < 4_000_000 {
        let k = [i, sm(i), 5, s];
        i += 1;
        let pos = BinaryFuseP32::hash_eval(&k, seed, sl, slm, scl);
        match slot {
            None => {
                slot = Some(pos[which]);
                keys.push(k);
            }
            Some(x) if x == pos[which] => keys.push(k),
            _ => {}
        }
    }
    let crowd = keys.len();
    while keys.len() < n {
        keys.push([i, 1, 2, 3]);
        i += 1;
    }
    let data: Vec<u32> = (0..n as u32).map(|i| i % 1000).collect();
    for vec in [false, true] {
        let what = format!("BinaryFuseP32 of {} keys, {} of them in one slot ({})", n, crowd, which);
        match build_p(vec, seed, &keys, &data, 1, 1024).map_err(|e| format!("{}: panics: {}", what, e))? {
            Ok(f) => {
                for (k, d) in keys.iter().zip(&data) {
                    if f.retrieve(k, 1) != *d {
                        return Err(format!("{}: key {:x?} retrieves {} instead of {}", what, k, f.retrieve(k, 1), d));
                    }
                }
                after(c, &f, &keys[..10.min(n)], &what)?;
                c.outcome(&(n, true));
            }
            Err(_) => c.outcome(&(n, false)),
        }
        c.steps(1);
        c.state(&(n, which, s, vec));
    }
    c.sample(format!("{} of {} keys share one slot", crowd, n));
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let max = if th { 8 } else { 5 };
    let top = if th { 6000 } else { 2000 };
    pl.bound(format!("9 filters x 3 constructor forms x all subsets of up to {} of 14 structured keys, those of up to 4 in every order; 53 probing lookups in each", max));
    pl.bound(format!("every size from 0 to {} of 12 key families; progressions of every stride; sets of up to 300 keys (crafted: 100000) crowding slots under one of the first {} seeds", top, if th { 6 } else { 3 }));
    pl.bound("mod-p filter: every pair of numbers of keys and data up to 40 (two constructors), every size to 300 x 8 key kinds x several seeds, up to 98% of 5 to 700 keys in one slot");
    pl.assume("a hang is a case that does not end within its time limit; xor and binary fuse filters choose their seeds deterministically, so success is checked for the collections enumerated");
    for f in 0..9 {
        let parts = if is_fuse(f) { 1 } else { 4 };
        for part in 0..parts {
            pl.case(format!("subsets {} {}/{}", NAMES[f], part, parts), move |c| subsets(c, constructs, f, max, part, parts));
        }
        pl.case(format!("progressions {}", NAMES[f]), move |c| progressions(c, constructs, f));
        for s in 0..if th { 6 } else { 3 } {
            pl.case(format!("hard {} seed {}", NAMES[f], s), move |c| hard(c, constructs, f, s));
        }
        for fam in 0..FAMILIES {
            if is_fuse(f) && fam > 2 && !th {
                continue;
            }
            pl.case(format!("sizes {} family {}", NAMES[f], fam), move |c| sizes(c, constructs, f, fam, 0, top));
        }
        for fam in [0usize, 3, 7] {
            for n in [10_000usize, 65_536, 130_000] {
                if is_fuse(f) && n < 100_000 {
                    continue;
                }
                pl.case(format!("large {} family {} n={}", NAMES[f], fam, n), move |c| large(c, constructs, f, fam, n));
            }
        }
        // more keys in one slot than a byte or 16 bits can count
        if !is_fuse(f) {
            for n in [1000usize, 17_000, 70_000, 100_000] {
                for (k, base) in [(0u32, 0u64), (18, 0), (40, 0), (0, u64::MAX / 3)] {
                    pl.case(format!("crowd {} n={} base={:x} k={}", NAMES[f], n, base, k), move |c| {
                        let ks = crafted(base, k, n, 0);
                        constructs(c, f, 0, &ks, &|| format!("{} keys crafted: {:#x}+i<<{}", n, base, k)).map(|_| ())
                    });
                }
            }
        }
    }
    for i in 0..6 {
        pl.case(format!("proxy {}", i), move |c| proxies(c, 25 * i, 25 * i + 25));
    }
    for kind in 0..KEYKINDS {
        pl.case(format!("mod-p mismatch kind {}", kind), move |c| mismatch(c, 40, kind));
        pl.case(format!("mod-p sizes kind {}", kind), move |c| modp_sizes(c, kind, if th { 1200 } else { 300 }));
    }
    for n in [5usize, 10, 65, 70, 100, 130, 257, 300, 520, 700] {
        for which in 0..3 {
            for s in 0..if th { 6 } else { 2 } {
                pl.case(format!("mod-p crowded n={} slot {} seed {}", n, which, s), move |c| crowded(c, n, which, s));
            }
        }
    }
}
