//! Stand-in for the `rand` crate. OsRng hands out a scripted stream and records how much was taken;
//! every other generator is a different, fixed stream, so that seeds not fed by OsRng are recognised.
use std::sync::Mutex;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no entropy") } }
impl std::error::Error for Error {}
pub static FAIL: Mutex<bool> = Mutex::new(false);
pub static TAKEN: Mutex<Vec<u8>> = Mutex::new(Vec::new());
pub static CTR: Mutex<u64> = Mutex::new(1);
fn next() -> u8 { let mut c = CTR.lock().unwrap(); *c = c.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (*c >> 33) as u8 }
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, d: &mut [u8]);
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error>;
}
pub trait CryptoRng {}
pub trait Rng: RngCore { fn fill(&mut self, d: &mut [u8]) { self.fill_bytes(d) } fn gen_u8(&mut self) -> u8 { self.next_u32() as u8 } }
impl<T: RngCore> Rng for T {}
pub trait SeedableRng: Sized { fn seed_from_u64(s: u64) -> Self; fn from_entropy() -> Self { Self::seed_from_u64(7) } fn from_seed(_s: [u8; 32]) -> Self { Self::seed_from_u64(8) } }
pub mod rngs {
    use super::*;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl RngCore for OsRng {
        fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
        fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
        fn fill_bytes(&mut self, d: &mut [u8]) { if self.try_fill_bytes(d).is_err() { panic!("Error: no entropy"); } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
            if *FAIL.lock().unwrap() { return Err(Error); }
            for x in d.iter_mut() { *x = next(); }
            TAKEN.lock().unwrap().extend_from_slice(d);
            Ok(())
        }
    }
    impl CryptoRng for OsRng {}
    #[derive(Clone, Debug)]
    pub struct StdRng(pub u64);
    pub type SmallRng = StdRng;
    pub type ThreadRng = StdRng;
    impl RngCore for StdRng {
        fn next_u32(&mut self) -> u32 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(99); (self.0 >> 32) as u32 }
        fn next_u64(&mut self) -> u64 { ((self.next_u32() as u64) << 32) | self.next_u32() as u64 }
        fn fill_bytes(&mut self, d: &mut [u8]) { for x in d.iter_mut() { *x = self.next_u32() as u8; } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
    }
    impl SeedableRng for StdRng { fn seed_from_u64(s: u64) -> Self { StdRng(s) } }
}
pub fn thread_rng() -> rngs::StdRng { rngs::StdRng(12345) }
