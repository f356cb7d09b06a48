//! Stand-in: an exact set in place of the filter (no false positives, nothing forgotten).
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct DefaultBuildHashKernels<B>(PhantomData<B>);

impl<B> DefaultBuildHashKernels<B> {
    pub fn new(_: usize, _: B) -> Self {
        DefaultBuildHashKernels(PhantomData)
    }
}

pub trait BloomFilter {
    fn insert<T: Hash>(&mut self, item: &T);
    fn contains<T: Hash>(&self, item: &T) -> bool;
    fn reset(&mut self);
}

pub struct StableBloomFilter<B> {
    seen: HashSet<u64>,
    _b:   PhantomData<B>,
}

unsafe impl<B> Send for StableBloomFilter<B> {}
unsafe impl<B> Sync for StableBloomFilter<B> {}

impl<B> StableBloomFilter<B> {
    pub fn new(_: usize, _: u8, _: f64, _: B) -> Self {
        StableBloomFilter { seen: HashSet::new(), _b: PhantomData }
    }
}

fn digest<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl<B> BloomFilter for StableBloomFilter<B> {
    fn insert<T: Hash>(&mut self, item: &T) {
        self.seen.insert(digest(item));
    }

    fn contains<T: Hash>(&self, item: &T) -> bool {
        self.seen.contains(&digest(item))
    }

    fn reset(&mut self) {
        self.seen.clear()
    }
}

pub type State = RandomState;
