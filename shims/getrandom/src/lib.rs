//! Stand-in for the `getrandom` crate (same name, version and public API).
//!
//! Every byte the code under test obtains from "the operating system" comes
//! from here. A thread may install a `Source`; it then decides every request.
//! Threads without a source get a deterministic stream of their own.
#[macro_use]
extern crate cfg_if;
mod error;
mod error_impls;
pub use crate::error::Error;

use std::cell::{Cell, RefCell};
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicU64, Ordering};

/// Answers one request: fills the buffer and returns true, or returns false
/// to make the generator fail.
pub type Source = Box<dyn FnMut(&mut [u8]) -> bool>;

static BASE: AtomicU64 = AtomicU64::new(0x0123_4567_89ab_cdef);
static THREADS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static SOURCE: RefCell<Option<Source>> = RefCell::new(None);
    static FALLBACK: Cell<u64> = Cell::new(0);
}

/// Seed of the fallback streams of threads that start afterwards.
pub fn set_base_seed(s: u64) {
    BASE.store(s, Ordering::SeqCst);
}
/// Restarts the fallback stream of this thread at a fixed point.
pub fn set_thread_stream(s: u64) {
    FALLBACK.with(|f| f.set(mix(s ^ BASE.load(Ordering::SeqCst)) | 1));
}
/// Installs (or removes) the source of this thread and returns the old one.
pub fn set_source(s: Option<Source>) -> Option<Source> {
    SOURCE.with(|c| std::mem::replace(&mut *c.borrow_mut(), s))
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// The deterministic stream; usable by sources as a default answer.
pub fn fallback_fill(dest: &mut [u8]) {
    FALLBACK.with(|f| {
        let mut s = f.get();
        if s == 0 {
            let t = THREADS.fetch_add(1, Ordering::SeqCst);
            s = mix(BASE.load(Ordering::SeqCst) ^ mix(t.wrapping_add(77))) | 1;
        }
        for chunk in dest.chunks_mut(8) {
            s = s.wrapping_add(0x9e37_79b9_7f4a_7c16);
            let b = mix(s).to_le_bytes();
            let n = chunk.len();
            chunk.copy_from_slice(&b[..n]);
        }
        f.set(s);
    })
}

/// As `getrandom::getrandom`.
#[inline]
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let r = SOURCE.with(|c| match c.borrow_mut().as_mut() {
        Some(f) => Some(f(dest)),
        None => None,
    });
    match r {
        Some(true) => Ok(()),
        Some(false) => Err(Error::UNEXPECTED),
        None => {
            fallback_fill(dest);
            Ok(())
        }
    }
}

/// As `getrandom::getrandom_uninit`.
pub fn getrandom_uninit(
    dest: &mut [MaybeUninit<u8>],
) -> Result<&mut [u8], Error> {
    for b in dest.iter_mut() {
        *b = MaybeUninit::new(0);
    }
    let d = unsafe { &mut *(dest as *mut [MaybeUninit<u8>] as *mut [u8]) };
    getrandom(d)?;
    Ok(d)
}
