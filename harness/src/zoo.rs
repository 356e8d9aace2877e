//! The membership filters of the xorf crate behind one interface, key
//! families, and keys crafted from wanted hashes.
#![allow(deprecated)]
use crate::engine::no_panic;
use crate::util::sm;
use std::convert::TryFrom;
use std::hash::Hasher;
use xorf::*;

pub type Look = Box<dyn Fn(u64) -> bool>;
pub const NAMES: [&str; 9] = [
    "Xor8", "Xor16", "Xor32", "Fuse8", "Fuse16", "Fuse32", "BinaryFuse8", "BinaryFuse16", "BinaryFuse32",
];
pub fn is_fuse(f: usize) -> bool {
    (3..6).contains(&f)
}
pub fn bits(f: usize) -> u32 {
    [8, 16, 32][f % 3]
}
pub const FORMS: [&str; 3] = ["slice", "&Vec", "Vec"];

pub struct Filt {
    pub look: Look,
    pub len: usize,
}
macro_rules! ok {
    ($e:expr) => {{
        let f = $e;
        let len = f.len();
        Ok(Filt {
            look: Box::new(move |k| f.contains(&k)),
            len,
        })
    }};
}
macro_rules! inf {
    ($t:ty, $form:expr, $keys:expr) => {
        match $form {
            0 => ok!(<$t>::from($keys)),
            1 => ok!(<$t>::from(&$keys.to_vec())),
            _ => ok!(<$t>::from($keys.to_vec())),
        }
    };
}
macro_rules! fal {
    ($t:ty, $form:expr, $keys:expr) => {
        match $form {
            0 => <$t>::try_from($keys),
            1 => <$t>::try_from(&$keys.to_vec()),
            _ => <$t>::try_from($keys.to_vec()),
        }
        .map_err(|e| e.to_string())
        .and_then(|f| ok!(f))
    };
}
/// Outer error: panic. Inner error: construction refused.
pub fn build(f: usize, form: usize, keys: &[u64]) -> Result<Result<Filt, String>, String> {
    no_panic(|| match f {
        0 => inf!(Xor8, form, keys),
        1 => inf!(Xor16, form, keys),
        2 => inf!(Xor32, form, keys),
        3 => fal!(Fuse8, form, keys),
        4 => fal!(Fuse16, form, keys),
        5 => fal!(Fuse32, form, keys),
        6 => fal!(BinaryFuse8, form, keys),
        7 => fal!(BinaryFuse16, form, keys),
        _ => fal!(BinaryFuse32, form, keys),
    })
}

/// Hashers for the proxy: the word itself, a constant, few values.
#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
#[derive(Default)]
pub struct Konst;
impl Hasher for Konst {
    fn finish(&self) -> u64 {
        42
    }
    fn write(&mut self, _: &[u8]) {}
}
#[derive(Default)]
pub struct Few(u64);
impl Hasher for Few {
    fn finish(&self) -> u64 {
        self.0 % 7
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}

pub const FAMILIES: usize = 12;
/// The i-th key of a family; distinct for all i below 2^32.
pub fn key(family: usize, i: u64) -> u64 {
    match family {
        0 => i,
        1 => sm(i),
        2 => u64::MAX - i,
        3 => i << 32,
        4 => i.reverse_bits(),
        5 => i.wrapping_mul(0x9e37_79b9_7f4a_7c15),
        6 => i << 20,
        7 => (i << 32) | i,
        8 => (1 << 63) + i,
        9 => i.wrapping_mul(3),
        10 => (i & 1) << 63 | i >> 1,
        _ => i.swap_bytes(),
    }
}
pub fn keys(family: usize, n: usize) -> Vec<u64> {
    (0..n as u64).map(|i| key(family, i)).collect()
}

fn inv(a: u64) -> u64 {
    let mut x = a;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}
/// The key whose mix under the i-th seed of the construction is `hash`. Only
/// a way of choosing hard inputs: should the mixing change they are ordinary.
pub fn key_for(hash: u64, seed_no: u64) -> u64 {
    let mut k = hash;
    k ^= k >> 33;
    k = k.wrapping_mul(inv(0xc4ce_b9fe_1a85_ec53));
    k ^= k >> 33;
    k = k.wrapping_mul(inv(0xff51_afd7_ed55_8ccd));
    k ^= k >> 33;
    k.wrapping_sub(seed(seed_no))
}
pub fn seed(i: u64) -> u64 {
    let s = 1u64.wrapping_add((i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15));
    let z = (s ^ (s >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
/// Keys that are hard for the given attempts of the construction: their
/// hashes under that seed are c + (i << k).
pub fn crafted(c: u64, k: u32, n: usize, seed_no: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n as u64)
        .map(|i| key_for(c.wrapping_add(i.wrapping_shl(k)), seed_no))
        .collect();
    v.sort();
    v.dedup();
    v
}
/// Hashes at the ends of ranges.
pub fn extreme_hashes() -> Vec<u64> {
    let mut v = vec![0, u64::MAX];
    for k in 0..64u32 {
        v.extend([1u64 << k, (1u64 << k) - 1, u64::MAX << k, !(1u64 << k), u64::MAX - (1 << k)]);
    }
    v.sort();
    v.dedup();
    v
}
