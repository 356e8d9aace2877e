//! C14: membership filters have no false negatives.
use crate::engine::*;
use crate::util::*;
use crate::zoo::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use xorf::{Filter, HashProxy, Xor16, Xor32, Xor8};

/// Builds the filter and asks for every key.
fn members(c: &mut Case, f: usize, form: usize, keys: &[u64], what: &dyn Fn() -> String) -> Result<bool, String> {
    let name = || format!("{} from {} ({})", NAMES[f], FORMS[form], what());
    match build(f, form, keys).map_err(|e| format!("{}: construction panics: {}", name(), e))? {
        Err(_) => {
            c.steps(1);
            Ok(false)
        }
        Ok(flt) => {
            for (i, k) in keys.iter().enumerate() {
                if !no_panic(|| (flt.look)(*k)).map_err(|e| format!("{}: lookup panics: {}", name(), e))? {
                    return Err(format!(
                        "{}: key {} ({:#x}) of {} is reported as missing",
                        name(),
                        i,
                        k,
                        keys.len()
                    ));
                }
            }
            c.steps(1 + keys.len() as u64);
            c.state(&(f, form, keys));
            c.trace();
            Ok(true)
        }
    }
}
/// What to judge about one collection: C14 asks for the members, C15 for the
/// construction itself.
pub type Judge = fn(&mut Case, usize, usize, &[u64], &dyn Fn() -> String) -> Result<bool, String>;
fn all_forms(c: &mut Case, j: Judge, f: usize, keys: &[u64], what: &dyn Fn() -> String) -> R {
    for form in 0..3 {
        j(c, f, form, keys, what)?;
    }
    Ok(())
}

const U: [u64; 14] = [
    0,
    1,
    2,
    3,
    255,
    256,
    0xffff_ffff,
    1 << 32,
    1 << 63,
    u64::MAX,
    u64::MAX - 1,
    0x5555_5555_5555_5555,
    0x0123_4567_89ab_cdef,
    0xbf58_476d_1ce4_e5b9,
];

fn perms(v: &mut Vec<u64>, k: usize, f: &mut dyn FnMut(&[u64]) -> R) -> R {
    if k == v.len() {
        return f(v);
    }
    for i in k..v.len() {
        v.swap(k, i);
        perms(v, k + 1, f)?;
        v.swap(k, i);
    }
    Ok(())
}
/// All subsets of the universe up to a size, the small ones in every order.
pub fn subsets(c: &mut Case, judge: Judge, f: usize, max: u32, part: usize, parts: usize) -> R {
    for m in 0u32..1 << U.len() {
        if m.count_ones() > max || (m as usize) % parts != part {
            continue;
        }
        let ks: Vec<u64> = (0..U.len()).filter(|i| m >> i & 1 == 1).map(|i| U[i]).collect();
        if m.count_ones() <= 4 {
            let mut v = ks.clone();
            perms(&mut v, 0, &mut |o| all_forms(c, judge, f, o, &|| format!("{:x?}", o)))?;
        } else {
            all_forms(c, judge, f, &ks, &|| format!("{:x?}", ks))?;
        }
        c.outcome(&(f, m));
    }
    Ok(())
}
/// Arithmetic progressions: all strides 2^k.
pub fn progressions(c: &mut Case, judge: Judge, f: usize) -> R {
    for k in 0..64u32 {
        for start in [0u64, 1, u64::MAX, 1 << 63, 0x1234_5678_9abc_def0] {
            for n in [2u64, 3, 5, 17, 64, 65, 100, 257] {
                let n = if 64 - k < 16 { n.min(1 << (64 - k)) } else { n };
                let ks: Vec<u64> = (0..n).map(|i| start.wrapping_add(i << k)).collect();
                judge(c, f, (k % 3) as usize, &ks, &|| format!("{} keys from {:#x} by 2^{}", n, start, k))?;
            }
        }
    }
    Ok(())
}
pub fn sizes(c: &mut Case, judge: Judge, f: usize, fam: usize, from: usize, to: usize) -> R {
    let all = keys(fam, to);
    let mut built = 0u64;
    for n in from..to {
        if is_fuse(f) && n >= 90 && n % 64 != 0 {
            continue; // almost always refused, after a thousand attempts
        }
        if judge(c, f, n % 3, &all[..n], &|| format!("{} keys of family {}", n, fam))? {
            built += 1;
        }
    }
    c.outcome(&(f, fam, built));
    c.sample(format!("{} family {}: {} of {} sizes built", NAMES[f], fam, built, to - from));
    Ok(())
}
pub fn large(c: &mut Case, judge: Judge, f: usize, fam: usize, n: usize) -> R {
    let ks = keys(fam, n);
    let ok = judge(c, f, fam % 3, &ks, &|| format!("{} keys of family {}", n, fam))?;
    c.outcome(&(f, fam, n, ok));
    c.sample(format!("{} family {} n={}: built {}", NAMES[f], fam, n, ok));
    // the same set in another order
    if ok && n <= 200_000 {
        let mut r = ks.clone();
        r.reverse();
        judge(c, f, (fam + 1) % 3, &r, &|| format!("{} keys of family {} reversed", n, fam))?;
    }
    Ok(())
}
/// Sets that crowd slots under the construction's first seeds.
pub fn hard(c: &mut Case, judge: Judge, f: usize, seed_no: u64) -> R {
    let mut built = 0;
    for k in 0..64u32 {
        for base in [0u64, u64::MAX, 0x8000_0000_0000_0000, 0x0123_4567_89ab_cdef] {
            for n in [2usize, 3, 10, 63, 64, 65, 130, 257, 300] {
                if is_fuse(f) && n >= 90 && (k % 8 != 0 || base != 0) {
                    continue;
                }
                let ks = crafted(base, k, n, seed_no);
                if judge(c, f, 0, &ks, &|| format!("{} keys crafted for seed {}: {:#x}+i<<{}", n, seed_no, base, k))? {
                    built += 1;
                }
            }
        }
    }
    // keys with extreme hashes
    let ks: Vec<u64> = extreme_hashes().iter().map(|h| key_for(*h, seed_no)).collect();
    for w in [1usize, 2, 3, 7, 50, ks.len()] {
        for ch in ks.windows(w) {
            judge(c, f, 0, ch, &|| format!("{} keys of extreme hash for seed {}", w, seed_no))?;
        }
    }
    c.outcome(&built);
    Ok(())
}

macro_rules! proxy {
    ($c:expr, $h:ty, $keys:expr, $what:expr, $($x:ty),*) => {{
        let ks = $keys;
        $(
            for form in 0..2 {
                let name = format!("HashProxy<{}, {}> of {} keys ({}, form {})",
                    stringify!($h), stringify!($x), ks.len(), $what, form);
                let f: HashProxy<_, $h, $x> = no_panic(|| match form {
                    0 => HashProxy::from(ks.as_slice()),
                    _ => HashProxy::from(ks),
                }).map_err(|e| format!("{}: construction panics: {}", name, e))?;
                for k in ks.iter() {
                    if !no_panic(|| f.contains(k)).map_err(|e| format!("{}: lookup panics: {}", name, e))? {
                        return Err(format!("{}: {:?} is reported as missing", name, k));
                    }
                }
                $c.steps(1 + ks.len() as u64);
                $c.state(&(stringify!($h), stringify!($x), ks, form));
                $c.trace();
            }
        )*
    }};
}
/// Words that hash in an unusual way: equality and hash by length.
#[derive(Debug, PartialEq)]
struct ByLen(String);
impl Hash for ByLen {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.len().hash(h)
    }
}
pub fn proxies(c: &mut Case, n0: usize, n1: usize) -> R {
    for n in n0..n1 {
        let w: Vec<u64> = keys(n % FAMILIES, n);
        proxy!(c, Ident, &w, "words", Xor8, Xor16, Xor32);
        proxy!(c, Konst, &w, "words", Xor8, Xor16, Xor32);
        proxy!(c, Few, &w, "words", Xor8, Xor16, Xor32);
        proxy!(c, DefaultHasher, &w, "words", Xor8, Xor16, Xor32);
        let s: Vec<String> = (0..n).map(|i| format!("{}{}", "k".repeat(i % 9), i / 3)).collect();
        proxy!(c, DefaultHasher, &s, "strings", Xor8, Xor32);
        proxy!(c, Few, &s, "strings", Xor8, Xor16);
        let b: Vec<ByLen> = s.iter().map(|x| ByLen(x.clone())).collect();
        let t: Vec<(u8, [u64; 4])> = keyset(n % KEYKINDS, n).into_iter().map(|k| (n as u8, k)).collect();
        proxy!(c, DefaultHasher, &t, "tuples", Xor8, Xor16);
        for form in 0..2 {
            let f: HashProxy<ByLen, DefaultHasher, Xor16> = no_panic(|| match form {
                0 => HashProxy::from(b.as_slice()),
                _ => HashProxy::from(&b),
            })?;
            for k in &b {
                if !f.contains(k) {
                    return Err(format!("HashProxy of {} strings hashed by length: {:?} missing", n, k));
                }
            }
            c.steps(1);
        }
    }
    Ok(())
}

pub fn plan(pl: &mut Plan) {
    let th = pl.thorough();
    let max = if th { 8 } else { 5 };
    let top = if th { 6000 } else { 3000 };
    pl.bound(format!("9 filters x 3 constructor forms x all subsets of up to {} of 14 structured keys, those of up to 4 in every order", max));
    pl.bound(format!("every size from 0 to {} (deprecated fuse filters: to 90 and every 64th) of 12 key families; progressions of every stride 2^k", top));
    pl.bound(format!("sets of 2 to 300 keys whose hashes under one of the first {} seeds of the construction are c+(i<<k), every k; keys with extreme hashes", if th { 6 } else { 3 }));
    pl.bound(format!("large sets up to {} keys; the hashing proxy over the xor filters with 4 hashers (collision-free to constant) and 4 key types, 0 to 150 keys", if th { "2000000" } else { "200000" }));
    pl.assume("constructions that are refused with an error are judged by C15");
    for f in 0..9 {
        let parts = if is_fuse(f) { 1 } else { 4 };
        for part in 0..parts {
            pl.case(format!("subsets {} {}/{}", NAMES[f], part, parts), move |c| subsets(c, members, f, max, part, parts));
        }
        pl.case(format!("progressions {}", NAMES[f]), move |c| progressions(c, members, f));
        for s in 0..if th { 6 } else { 3 } {
            pl.case(format!("hard {} seed {}", NAMES[f], s), move |c| hard(c, members, f, s));
        }
        for fam in 0..FAMILIES {
            if is_fuse(f) && fam > 2 && !th {
                continue;
            }
            pl.case(format!("sizes {} family {}", NAMES[f], fam), move |c| sizes(c, members, f, fam, 0, top));
        }
        for fam in 0..FAMILIES {
            let ns: &[usize] = if th {
                if fam % 3 == 0 {
                    &[10_000, 65_535, 65_536, 65_537, 150_000, 200_000, 1_000_000, 2_000_000]
                } else {
                    &[20_000, 100_000, 300_000]
                }
            } else {
                &[20_000, 65_537, 150_000]
            };
            for &n in ns {
                if is_fuse(f) && n < 100_000 {
                    continue;
                }
                if !th && (fam + f) % 3 != (n % 5) % 3 {
                    continue;
                }
                pl.case(format!("large {} family {} n={}", NAMES[f], fam, n), move |c| large(c, members, f, fam, n));
            }
        }
    }
    for i in 0..6 {
        pl.case(format!("proxy {}", i), move |c| proxies(c, 25 * i, 25 * i + 25));
    }
}
