//! rand 0.7, except that a check can say what the thread's generator draws.
pub use real::*;

pub mod control {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    #[derive(Default)]
    struct State {
        script: VecDeque<usize>,
        asked:  Vec<usize>,
    }

    thread_local!(static STATE: RefCell<Option<State>> = const { RefCell::new(None) });

    /// From now on this thread draws these numbers, and zero when they are used up.
    pub fn script(s: impl IntoIterator<Item = usize>) {
        STATE.with(|x| *x.borrow_mut() = Some(State { script: s.into_iter().collect(), asked: vec![] }))
    }

    /// Back to real randomness; the sizes of the ranges that were drawn from.
    pub fn stop() -> Vec<usize> {
        STATE.with(|x| x.borrow_mut().take()).map(|s| s.asked).unwrap_or_default()
    }

    pub(crate) fn draw(n: usize) -> Option<usize> {
        STATE.with(|x| {
            let mut x = x.borrow_mut();
            let s = x.as_mut()?;
            s.asked.push(n);
            Some(s.script.pop_front().unwrap_or(0) % n.max(1))
        })
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct ThreadRng;

pub fn thread_rng() -> ThreadRng {
    ThreadRng
}

/// Whole numbers that a range can be drawn from.
pub trait Whole: Copy + PartialOrd + distributions::uniform::SampleUniform {
    fn span(low: Self, high: Self) -> usize;
    fn up(self, by: usize) -> Self;
}

macro_rules! whole {
    ($($t:ty)*) => { $(impl Whole for $t {
        fn span(low: Self, high: Self) -> usize {
            (high as i128 - low as i128) as usize
        }

        fn up(self, by: usize) -> Self {
            (self as i128 + by as i128) as $t
        }
    })* };
}

whole!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

impl ThreadRng {
    pub fn gen_range<T: Whole>(&mut self, low: T, high: T) -> T {
        assert!(low < high, "UniformSampler::sample_single: low >= high");
        match control::draw(T::span(low, high)) {
            Some(n) => low.up(n),
            None => Rng::gen_range(&mut real::thread_rng(), low, high),
        }
    }
}

/// Twelve words, so spread that a range of up to four (or six) is covered by them; the first is never rejected.
const WORDS: usize = 12;

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        match control::draw(WORDS) {
            Some(n) => (((n as u64) << 32) / WORDS as u64) as u32 + u32::from(n > 0),
            None => real::thread_rng().next_u32(),
        }
    }

    fn next_u64(&mut self) -> u64 {
        match control::draw(WORDS) {
            Some(n) => (((n as u128) << 64) / WORDS as u128) as u64 + u64::from(n > 0),
            None => real::thread_rng().next_u64(),
        }
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}

pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    Rng::gen(&mut thread_rng())
}

pub mod rngs {
    pub use super::ThreadRng;
    pub use real::rngs::{adapter, mock, EntropyRng, OsRng, SmallRng, StdRng};
}

pub mod prelude {
    pub use super::rngs::{SmallRng, StdRng, ThreadRng};
    pub use super::{random, thread_rng};
    pub use real::distributions::Distribution;
    pub use real::seq::{IteratorRandom, SliceRandom};
    pub use real::{CryptoRng, Rng, RngCore, SeedableRng};
}
