// simulator version: one seeded stream per simulated thread

use std::marker::PhantomData;
use std::rc::Rc;

use crate::{CryptoRng, Error, RngCore};

/// A reference to the thread-local generator (simulated)
#[derive(Clone, Debug)]
pub struct ThreadRng {
    // Rc is explicitly !Send and !Sync
    _p: PhantomData<Rc<()>>,
}

/// Retrieve the thread-local random number generator of the simulated thread
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _p: PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (simcore::sys_rand() >> 32) as u32
    }

    fn next_u64(&mut self) -> u64 {
        simcore::sys_rand()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = simcore::sys_rand().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
