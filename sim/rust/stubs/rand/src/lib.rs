//! Randomness of the simulation: a function of SIM_SEED.
use std::sync::atomic::{AtomicU64, Ordering};
static N: AtomicU64 = AtomicU64::new(0);
fn seed() -> u64 {
    std::env::var("SIM_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn next() -> u64 {
    let mut z = seed().wrapping_add(N.fetch_add(1, Ordering::SeqCst).wrapping_add(1).wrapping_mul(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
#[derive(Debug)]
pub struct Error;
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Sim;
impl RngCore for Sim {
    fn next_u32(&mut self) -> u32 {
        next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = next() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
pub mod rngs {
    pub use crate::Sim as OsRng;
    pub use crate::Sim as ThreadRng;
}
pub fn thread_rng() -> Sim {
    Sim
}
pub trait Rng: RngCore {
    fn fill(&mut self, dest: &mut [u8]) {
        self.fill_bytes(dest)
    }
}
impl<T: RngCore> Rng for T {}
