//! lru 0.12's interface over lru 0.7, which is the version available offline.

use std::hash::Hash;
use std::num::NonZeroUsize;
use std::ops::{Deref, DerefMut};

pub struct LruCache<K, V>(lru07::LruCache<K, V>);

impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        LruCache(lru07::LruCache::new(cap.get()))
    }

    pub fn unbounded() -> Self {
        LruCache(lru07::LruCache::unbounded())
    }

    pub fn cap(&self) -> NonZeroUsize {
        NonZeroUsize::new(self.0.cap()).unwrap()
    }
}

impl<K, V> Deref for LruCache<K, V> {
    type Target = lru07::LruCache<K, V>;

    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl<K, V> DerefMut for LruCache<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}

impl<K: Hash + Eq, V> std::fmt::Debug for LruCache<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("LruCache").field("len", &self.0.len()).finish()
    }
}
