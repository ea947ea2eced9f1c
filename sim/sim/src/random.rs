//! The randomness of the simulated processes: std's hash keys and whatever else asks
//! the system for random bytes, in the simulator and in every loaded build.
use crate::rng::hash_u64;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static SEED: AtomicU64 = AtomicU64::new(0);
static DRAWN: AtomicU64 = AtomicU64::new(0);
static FORKED: AtomicU64 = AtomicU64::new(0);

pub fn begin(seed: u64) {
    SEED.store(seed, SeqCst);
    DRAWN.store(0, SeqCst);
    FORKED.store(0, SeqCst);
}
/// The seed of the next process.
pub fn next() -> u64 {
    hash_u64(SEED.load(SeqCst), FORKED.fetch_add(1, SeqCst) + (1 << 32))
}

/// Stands in for libc's: std asks through a weak symbol.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        if i % 8 == 0 {
            DRAWN.fetch_add(1, SeqCst);
        }
        let word = hash_u64(SEED.load(SeqCst), DRAWN.load(SeqCst));
        *buf.add(i) = (word >> (8 * (i % 8))) as u8;
    }
    len as isize
}
