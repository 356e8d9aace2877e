//! One build of the filter crate, with one combination of its features:
//! everything it offers, over enumerated key sets.
//!
//!   combo run TIER OUT.json DIR   checks, writes filters to DIR (with serde)
//!   combo load OUT.json DIR...    looks up in the filters of other builds
#![allow(deprecated, unused)]
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use xorf::*;

/// Keys are their own hashes.
#[derive(Default, Clone)]
struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = self.0.rotate_left(7) ^ u64::from_le_bytes(w);
        }
    }
}
fn sm(i: u64) -> u64 {
    let mut z = i.wrapping_add(1).wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn hash(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Report {
    executions: u64,
    transitions: u64,
    states: std::collections::HashSet<u64>,
    /// what every build has to observe alike
    obs: BTreeMap<String, u64>,
    bad: Vec<String>,
}
impl Report {
    fn note(&mut self, k: &str, v: u64) {
        let e = self.obs.entry(k.to_string()).or_insert(0);
        *e = hash((*e, v));
        self.states.insert(hash((k, v)));
    }
    fn fail(&mut self, m: String) {
        if self.bad.len() < 5 {
            self.bad.push(m);
        }
    }
    fn write(&self, path: &str) {
        let esc = |s: &String| s.replace('\\', "/").replace('"', "'").replace(|c: char| c.is_control(), " ");
        let obs: Vec<String> = self.obs.iter().map(|(k, v)| format!("\"{}\": {}", k, v >> 1)).collect();
        let bad: Vec<String> = self.bad.iter().map(|b| format!("\"{}\"", esc(b))).collect();
        std::fs::write(
            path,
            format!(
                "{{\"executions\": {}, \"transitions\": {}, \"states\": {}, \"obs\": {{{}}}, \"bad\": [{}]}}",
                self.executions,
                self.transitions,
                self.states.len(),
                obs.join(", "),
                bad.join(", ")
            ),
        )
        .expect("write the report");
    }
}

fn key_sets(thorough: bool) -> Vec<Vec<u64>> {
    let base: [u64; 10] = [0, 1, 2, u64::MAX, 1 << 63, 1 << 32, 0xff, sm(1), sm(2), sm(1) ^ 1];
    let mut sets = vec![];
    for m in 0u32..1 << base.len() {
        sets.push((0..base.len()).filter(|i| m >> i & 1 == 1).map(|i| base[i]).collect());
    }
    let dense = if thorough { 2000 } else { 300 };
    for n in (0..dense).chain([1000, 4097, 20000]) {
        sets.push((0..n as u64).collect());
        sets.push((0..n as u64).map(|i| sm(i + n as u64 * 7919)).collect());
    }
    sets
}

type Build<F> = fn(&[u64]) -> Result<F, String>;
fn member<F: Filter<u64>>(r: &mut Report, name: &str, build: Build<F>, may_fail: bool, sets: &[Vec<u64>]) {
    let said = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    for ks in sets {
        r.executions += 1;
        match std::panic::catch_unwind(|| build(ks)) {
            Ok(Ok(f)) => {
                for k in ks {
                    r.transitions += 1;
                    if !f.contains(k) {
                        r.fail(format!("{} of {} keys does not contain {}", name, ks.len(), k));
                        break;
                    }
                }
                if !may_fail {
                    r.note(&format!("{} sizes", name), f.len() as u64);
                }
            }
            Ok(Err(e)) if may_fail => {}
            Ok(Err(e)) => r.fail(format!("{} of {} keys: {}", name, ks.len(), e)),
            Err(p) => r.fail(format!("{} of {} keys: panic", name, ks.len())),
        }
    }
    std::panic::set_hook(said);
}
fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

#[cfg(feature = "binary-fuse-modp")]
fn modp(r: &mut Report, thorough: bool) {
    let base: Vec<[u64; 4]> = vec![[0; 4], [0, 0, 0, 1], [1, 0, 0, 0], [u64::MAX; 4], [1, 2, 3, 4], [4, 3, 2, 1], [sm(1), sm(2), sm(3), sm(4)]];
    let mut sets: Vec<Vec<[u64; 4]>> = vec![];
    for m in 0u32..1 << base.len() {
        sets.push((0..base.len()).filter(|i| m >> i & 1 == 1).map(|i| base[i]).collect());
    }
    for n in (0..if thorough { 400 } else { 60 }).chain([1000, 5000]) {
        sets.push((0..n as u64).map(|i| [i, sm(i), i * i, !i]).collect());
    }
    for (x, ks) in sets.iter().enumerate() {
        for modulus in [256u64, 1000, 1 << 16, 1 << 31, 1 << 32] {
            for label in [0u64, 1, u64::MAX] {
                // seeds until one fits
                let mut done = false;
                for t in 0..60u64 {
                    let mut seed = [0u8; 32];
                    for (i, b) in seed.iter_mut().enumerate() {
                        *b = sm(x as u64 * 1000 + t * 64 + i as u64) as u8;
                    }
                    let data: Vec<u32> = (0..ks.len()).map(|i| sm(label ^ (i as u64 + 5 * x as u64)) as u32).collect();
                    r.executions += 1;
                    let f = match BinaryFuseP32::from_slice(seed, ks, &data, label, modulus) {
                        Ok(f) => f,
                        Err(_) => {
                            r.note("mod-p unusable seeds", hash((x, t)));
                            continue;
                        }
                    };
                    let fp = f.get_fingerprints_mod();
                    for (k, d) in ks.iter().zip(&data) {
                        r.transitions += 1;
                        let want = (*d as u64 % modulus) as u32;
                        let got = f.retrieve(k, label);
                        if got != want {
                            r.fail(format!("mod-p filter of {} keys, modulus {}: {} instead of {}", ks.len(), modulus, got, want));
                        }
                        let at = BinaryFuseP32::hash_eval(k, seed, f.segment_length, f.segment_length_mask, f.segment_count_length);
                        let mask = BinaryFuseP32::get_key_fingerprint(k, seed, label);
                        if modulus.is_power_of_two() {
                            let sum = at.iter().fold(mask as u32, |a, i| a.wrapping_add(fp[*i]));
                            if sum as u64 % modulus != want as u64 {
                                r.fail(format!("mod-p filter of {} keys, modulus {}: positions and mask give {} instead of {}", ks.len(), modulus, sum, want));
                            }
                        }
                        r.note("mod-p positions", hash(&at));
                        r.note("mod-p masks", mask);
                    }
                    r.note("mod-p sizes", hash((fp.len(), f.segment_length, f.segment_length_mask, f.segment_count_length)));
                    done = true;
                    break;
                }
                if !done {
                    r.fail(format!("mod-p filter of {} keys: none of 60 seeds fits", ks.len()));
                }
            }
        }
    }
}

#[cfg(feature = "serde")]
mod files {
    use super::*;
    fn sizes() -> Vec<Vec<u64>> {
        [0usize, 1, 2, 3, 10, 100, 1000, 5000].iter().map(|n| (0..*n as u64).map(|i| sm(i + 31 * *n as u64)).collect()).collect()
    }
    macro_rules! each {
        ($go:ident, $r:expr, $d:expr) => {
            $go!("Xor8", |k: &[u64]| Ok::<_, String>(Xor8::from(k)), Xor8, $r, $d);
            $go!("Xor16", |k: &[u64]| Ok::<_, String>(Xor16::from(k)), Xor16, $r, $d);
            $go!("Xor32", |k: &[u64]| Ok::<_, String>(Xor32::from(k)), Xor32, $r, $d);
            $go!("Fuse8", |k: &[u64]| Fuse8::try_from(k).map_err(s), Fuse8, $r, $d);
            $go!("Fuse16", |k: &[u64]| Fuse16::try_from(k).map_err(s), Fuse16, $r, $d);
            $go!("Fuse32", |k: &[u64]| Fuse32::try_from(k).map_err(s), Fuse32, $r, $d);
            $go!("HashProxy", |k: &[u64]| Ok::<_, String>(HashProxy::<u64, Ident, Xor16>::from(k)), HashProxy<u64, Ident, Xor16>, $r, $d);
            #[cfg(feature = "binary-fuse")]
            {
                $go!("BinaryFuse8", |k: &[u64]| BinaryFuse8::try_from(k).map_err(s), BinaryFuse8, $r, $d);
                $go!("BinaryFuse16", |k: &[u64]| BinaryFuse16::try_from(k).map_err(s), BinaryFuse16, $r, $d);
                $go!("BinaryFuse32", |k: &[u64]| BinaryFuse32::try_from(k).map_err(s), BinaryFuse32, $r, $d);
            }
        };
    }
    macro_rules! dump {
        ($n:expr, $f:expr, $t:ty, $r:expr, $d:expr) => {
            for ks in sizes() {
                if let Ok(f) = $f(&ks[..]) {
                    let p = format!("{}/{}-{}", $d, $n, ks.len());
                    std::fs::write(format!("{}.bin", p), bincode::serialize(&f).expect("serialize")).expect("write");
                    std::fs::write(format!("{}.json", p), serde_json::to_vec(&f).expect("serialize")).expect("write");
                }
            }
        };
    }
    macro_rules! look {
        ($n:expr, $f:expr, $t:ty, $r:expr, $d:expr) => {
            for ks in sizes() {
                let p = format!("{}/{}-{}", $d, $n, ks.len());
                if let Ok(b) = std::fs::read(format!("{}.bin", p)) {
                    let j = std::fs::read(format!("{}.json", p)).expect("read");
                    let a: Result<$t, String> = bincode::deserialize(&b).map_err(s);
                    let c: Result<$t, String> = serde_json::from_slice(&j).map_err(s);
                    for (form, f) in [("binary", a), ("text", c)] {
                        $r.executions += 1;
                        match f {
                            Err(e) => $r.fail(format!("{} of {} keys written by another build ({}) is refused: {}", $n, ks.len(), form, e)),
                            Ok(f) => {
                                for k in &ks {
                                    $r.transitions += 1;
                                    if !f.contains(k) {
                                        $r.fail(format!("{} of {} keys written by another build ({}) does not contain {}", $n, ks.len(), form, k));
                                        break;
                                    }
                                }
                                $r.states.insert(hash((form, $n, ks.len(), $d)));
                            }
                        }
                    }
                }
            }
        };
    }
    #[cfg(feature = "binary-fuse-modp")]
    fn modp_files(r: &mut Report, d: &str, load: bool) {
        for n in [0usize, 1, 3, 50, 1000] {
            let ks: Vec<[u64; 4]> = (0..n as u64).map(|i| [i, sm(i), 3, 4]).collect();
            let data: Vec<u32> = (0..n as u64).map(|i| sm(i + 9) as u32 % 5000).collect();
            let p = format!("{}/modp-{}", d, n);
            if !load {
                if let Some(f) = (0..60u8).find_map(|t| BinaryFuseP32::from_slice([t; 32], &ks, &data, 7, 5000).ok()) {
                    std::fs::write(format!("{}.bin", p), bincode::serialize(&f).expect("serialize")).expect("write");
                    std::fs::write(format!("{}.json", p), serde_json::to_vec(&f).expect("serialize")).expect("write");
                }
            } else if let Ok(b) = std::fs::read(format!("{}.bin", p)) {
                let j = std::fs::read(format!("{}.json", p)).expect("read");
                let a: Result<BinaryFuseP32, String> = bincode::deserialize(&b).map_err(s);
                let c: Result<BinaryFuseP32, String> = serde_json::from_slice(&j).map_err(s);
                for f in [a, c] {
                    r.executions += 1;
                    match f {
                        Err(e) => r.fail(format!("mod-p filter of another build is refused: {}", e)),
                        Ok(f) => {
                            for (k, x) in ks.iter().zip(&data) {
                                r.transitions += 1;
                                if f.retrieve(k, 7) != *x {
                                    r.fail(format!("mod-p filter of {} keys written by another build gives {} instead of {}", n, f.retrieve(k, 7), x));
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    pub fn dump(r: &mut Report, d: &str) {
        std::fs::create_dir_all(d).expect("create the directory");
        each!(dump, r, d);
        #[cfg(feature = "binary-fuse-modp")]
        modp_files(r, d, false);
    }
    pub fn load(r: &mut Report, d: &str) {
        each!(look, r, d);
        #[cfg(feature = "binary-fuse-modp")]
        modp_files(r, d, true);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut r = Report::default();
    match a[1].as_str() {
        "run" => {
            let thorough = a[2] == "thorough";
            let sets = key_sets(thorough);
            member(&mut r, "Xor8", |k| Ok(Xor8::from(k)), false, &sets);
            member(&mut r, "Xor16", |k| Ok(Xor16::from(k)), false, &sets);
            member(&mut r, "Xor32", |k| Ok(Xor32::from(k)), false, &sets);
            member(&mut r, "Fuse8", |k| Fuse8::try_from(k).map_err(s), true, &sets);
            member(&mut r, "Fuse16", |k| Fuse16::try_from(k).map_err(s), true, &sets);
            member(&mut r, "Fuse32", |k| Fuse32::try_from(k).map_err(s), true, &sets);
            member(&mut r, "HashProxy over Xor8", |k| Ok(HashProxy::<u64, Ident, Xor8>::from(k)), false, &sets);
            #[cfg(feature = "binary-fuse")]
            {
                member(&mut r, "BinaryFuse8", |k| BinaryFuse8::try_from(k).map_err(s), false, &sets);
                member(&mut r, "BinaryFuse16", |k| BinaryFuse16::try_from(k).map_err(s), false, &sets);
                member(&mut r, "BinaryFuse32", |k| BinaryFuse32::try_from(k).map_err(s), false, &sets);
            }
            #[cfg(feature = "binary-fuse-modp")]
            modp(&mut r, thorough);
            #[cfg(feature = "serde")]
            files::dump(&mut r, &a[4]);
            r.write(&a[3]);
        }
        "load" => {
            #[cfg(feature = "serde")]
            for d in &a[3..] {
                files::load(&mut r, d);
            }
            r.write(&a[2]);
        }
        _ => panic!("usage"),
    }
}
