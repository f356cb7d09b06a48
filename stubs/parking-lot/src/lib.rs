//! parking_lot's locks over the scheduler's, so that the order of lock operations can be enumerated.

use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};

use sched::RawLock;

macro_rules! guard {
    ($name: ident, $lock: ident, $done: ident) => {
        pub struct $name<'a, T: ?Sized>(&'a $lock<T>);

        impl<'a, T: ?Sized> Deref for $name<'a, T> {
            type Target = T;

            fn deref(&self) -> &T {
                unsafe { &*self.0.data.get() }
            }
        }

        impl<'a, T: ?Sized> Drop for $name<'a, T> {
            fn drop(&mut self) {
                self.0.raw.$done()
            }
        }

        unsafe impl<'a, T: ?Sized + Sync> Sync for $name<'a, T> {}
    };
}

macro_rules! lock {
    ($name: ident) => {
        pub struct $name<T: ?Sized> {
            raw:  RawLock,
            data: UnsafeCell<T>,
        }

        unsafe impl<T: ?Sized + Send> Send for $name<T> {}

        impl<T> $name<T> {
            pub const fn new(v: T) -> Self {
                $name { raw: RawLock::new(), data: UnsafeCell::new(v) }
            }

            pub fn into_inner(self) -> T {
                self.data.into_inner()
            }
        }

        impl<T: ?Sized> $name<T> {
            pub fn get_mut(&mut self) -> &mut T {
                self.data.get_mut()
            }
        }

        impl<T: Default> Default for $name<T> {
            fn default() -> Self {
                $name::new(T::default())
            }
        }

        impl<T> From<T> for $name<T> {
            fn from(v: T) -> Self {
                $name::new(v)
            }
        }

        impl<T: ?Sized> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }
    };
}

lock!(Mutex);
lock!(RwLock);
guard!(MutexGuard, Mutex, done_write);
guard!(RwLockReadGuard, RwLock, done_read);
guard!(RwLockWriteGuard, RwLock, done_write);

unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}

impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.write("a mutex");
        MutexGuard(self)
    }

    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.raw.try_write().then(|| MutexGuard(self))
    }
}

impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.read("a lock for reading");
        RwLockReadGuard(self)
    }

    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.write("a lock for writing");
        RwLockWriteGuard(self)
    }

    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.raw.try_write().then(|| RwLockWriteGuard(self))
    }
}
