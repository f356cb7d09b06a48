//! dashmap as one map behind one lock of the scheduler. The real map has many shards, each behind its
//! own lock, and an iteration takes them one after another; here an operation takes the whole map.

use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{BuildHasherDefault, Hash};
use std::ops::{Deref, DerefMut};

use sched::RawLock;

// the same order of iteration in every run
type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<DefaultHasher>>;

pub struct DashMap<K, V> {
    raw:  RawLock,
    data: UnsafeCell<HashMap<K, V>>,
}

unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Sync for DashMap<K, V> {}

impl<K, V> fmt::Debug for DashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("DashMap")
    }
}

struct Held<'a>(&'a RawLock, bool);

impl<'a> Drop for Held<'a> {
    fn drop(&mut self) {
        if self.1 {
            self.0.done_write()
        } else {
            self.0.done_read()
        }
    }
}

impl<K: Eq + Hash, V> Default for DashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}

impl<K: Eq + Hash + Clone, V: Clone> Clone for DashMap<K, V> {
    fn clone(&self) -> Self {
        let _g = self.shared();
        DashMap { raw: RawLock::new(), data: UnsafeCell::new(self.map().clone()) }
    }
}

impl<K: Eq + Hash, V> DashMap<K, V> {
    pub fn new() -> Self {
        DashMap { raw: RawLock::new(), data: UnsafeCell::new(HashMap::default()) }
    }

    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }

    fn shared(&self) -> Held<'_> {
        self.raw.read("a map");
        Held(&self.raw, false)
    }

    fn sole(&self) -> Held<'_> {
        self.raw.write("a map");
        Held(&self.raw, true)
    }

    #[allow(clippy::mut_from_ref)]
    fn map(&self) -> &mut HashMap<K, V> {
        unsafe { &mut *self.data.get() }
    }

    pub fn insert(&self, k: K, v: V) -> Option<V> {
        let _g = self.sole();
        self.map().insert(k, v)
    }

    pub fn remove<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let _g = self.sole();
        self.map().remove_entry(k)
    }

    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        let _g = self.shared();
        self.map().contains_key(k)
    }

    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<mapref::one::Ref<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let g = self.shared();
        self.map().get_key_value(k).map(|(k, v)| mapref::one::Ref { _g: g, k, v })
    }

    pub fn get_mut<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<mapref::one::RefMut<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let g = self.sole();
        self.map().get_mut(k).map(|v| mapref::one::RefMut { _g: g, v, _k: std::marker::PhantomData })
    }

    pub fn entry(&self, k: K) -> mapref::entry::Entry<'_, K, V> {
        let g = self.sole();
        use std::collections::hash_map::Entry as E;
        match self.map().entry(k) {
            E::Occupied(e) => mapref::entry::Entry::Occupied(mapref::entry::OccupiedEntry { g, e }),
            E::Vacant(e) => mapref::entry::Entry::Vacant(mapref::entry::VacantEntry { g, e }),
        }
    }

    pub fn retain(&self, f: impl FnMut(&K, &mut V) -> bool) {
        let _g = self.sole();
        self.map().retain(f)
    }

    pub fn clear(&self) {
        let _g = self.sole();
        self.map().clear()
    }

    pub fn len(&self) -> usize {
        let _g = self.shared();
        self.map().len()
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }

    pub fn iter(&self) -> std::vec::IntoIter<mapref::multiple::RefMulti<'_, K, V>> {
        let g = std::sync::Arc::new(self.shared());
        self.map()
            .iter()
            .map(|(k, v)| mapref::multiple::RefMulti { _g: std::sync::Arc::clone(&g), k, v })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

pub mod mapref {
    use super::*;

    pub mod one {
        use super::*;

        pub struct Ref<'a, K, V> {
            pub(crate) _g: Held<'a>,
            pub(crate) k:  &'a K,
            pub(crate) v:  &'a V,
        }

        impl<'a, K, V> Ref<'a, K, V> {
            pub fn key(&self) -> &K {
                self.k
            }

            pub fn value(&self) -> &V {
                self.v
            }
        }

        impl<'a, K, V> Deref for Ref<'a, K, V> {
            type Target = V;

            fn deref(&self) -> &V {
                self.v
            }
        }

        pub struct RefMut<'a, K, V> {
            pub(crate) _g: Held<'a>,
            pub(crate) v:  &'a mut V,
            pub(crate) _k: std::marker::PhantomData<K>,
        }

        impl<'a, K, V> RefMut<'a, K, V> {
            pub fn value(&self) -> &V {
                self.v
            }

            pub fn value_mut(&mut self) -> &mut V {
                self.v
            }
        }

        impl<'a, K, V> Deref for RefMut<'a, K, V> {
            type Target = V;

            fn deref(&self) -> &V {
                self.v
            }
        }

        impl<'a, K, V> DerefMut for RefMut<'a, K, V> {
            fn deref_mut(&mut self) -> &mut V {
                self.v
            }
        }
    }

    pub mod multiple {
        use super::*;

        pub struct RefMulti<'a, K, V> {
            pub(crate) _g: std::sync::Arc<Held<'a>>,
            pub(crate) k:  &'a K,
            pub(crate) v:  &'a V,
        }

        impl<'a, K, V> RefMulti<'a, K, V> {
            pub fn key(&self) -> &K {
                self.k
            }

            pub fn value(&self) -> &V {
                self.v
            }

            pub fn pair(&self) -> (&K, &V) {
                (self.k, self.v)
            }
        }

        impl<'a, K, V> Deref for RefMulti<'a, K, V> {
            type Target = V;

            fn deref(&self) -> &V {
                self.v
            }
        }
    }

    pub mod entry {
        use super::one::RefMut;
        use super::*;
        use std::collections::hash_map;

        pub struct OccupiedEntry<'a, K, V> {
            pub(crate) g: Held<'a>,
            pub(crate) e: hash_map::OccupiedEntry<'a, K, V>,
        }

        pub struct VacantEntry<'a, K, V> {
            pub(crate) g: Held<'a>,
            pub(crate) e: hash_map::VacantEntry<'a, K, V>,
        }

        pub enum Entry<'a, K, V> {
            Occupied(OccupiedEntry<'a, K, V>),
            Vacant(VacantEntry<'a, K, V>),
        }

        impl<'a, K, V> OccupiedEntry<'a, K, V> {
            pub fn get(&self) -> &V {
                self.e.get()
            }

            pub fn get_mut(&mut self) -> &mut V {
                self.e.get_mut()
            }

            pub fn insert(&mut self, v: V) -> V {
                self.e.insert(v)
            }

            pub fn remove(self) -> V {
                self.e.remove()
            }

            pub fn into_ref(self) -> RefMut<'a, K, V> {
                RefMut { _g: self.g, v: self.e.into_mut(), _k: std::marker::PhantomData }
            }
        }

        impl<'a, K, V> VacantEntry<'a, K, V> {
            pub fn insert(self, v: V) -> RefMut<'a, K, V> {
                RefMut { v: self.e.insert(v), _g: self.g, _k: std::marker::PhantomData }
            }
        }

        impl<'a, K, V> Entry<'a, K, V> {
            pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
                match self {
                    Entry::Occupied(e) => e.into_ref(),
                    Entry::Vacant(e) => e.insert(f()),
                }
            }

            pub fn or_insert(self, v: V) -> RefMut<'a, K, V> {
                self.or_insert_with(|| v)
            }

            pub fn or_default(self) -> RefMut<'a, K, V>
            where
                V: Default,
            {
                self.or_insert_with(V::default)
            }

            pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
                if let Entry::Occupied(e) = &mut self {
                    f(e.get_mut())
                }
                self
            }
        }
    }
}
