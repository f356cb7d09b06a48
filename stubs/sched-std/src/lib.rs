//! The standard library, but for the atomics: another thread may go first before every operation on
//! one. On a thread that harness/sched does not run they are the ordinary ones.

pub use std::*;

pub mod sync {
    pub use std::sync::*;

    pub mod atomic {
        pub use std::sync::atomic::*;
        use std::fmt;

        fn at() {
            if sched::scheduled() {
                sched::point("atomic");
            }
        }

        macro_rules! common {
            ($name: ident, $ty: ty) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $name(std::sync::atomic::$name);

                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }

                impl From<$ty> for $name {
                    fn from(v: $ty) -> Self {
                        Self::new(v)
                    }
                }

                impl $name {
                    pub const fn new(v: $ty) -> Self {
                        $name(std::sync::atomic::$name::new(v))
                    }

                    pub fn load(&self, o: Ordering) -> $ty {
                        at();
                        self.0.load(o)
                    }

                    pub fn store(&self, v: $ty, o: Ordering) {
                        at();
                        self.0.store(v, o)
                    }

                    pub fn swap(&self, v: $ty, o: Ordering) -> $ty {
                        at();
                        self.0.swap(v, o)
                    }

                    pub fn compare_exchange(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                        at();
                        self.0.compare_exchange(a, b, s, f)
                    }

                    pub fn compare_exchange_weak(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                        self.compare_exchange(a, b, s, f)
                    }

                    pub fn fetch_update(&self, s: Ordering, l: Ordering, mut f: impl FnMut($ty) -> Option<$ty>) -> Result<$ty, $ty> {
                        let mut old = self.load(l);
                        while let Some(new) = f(old) {
                            match self.compare_exchange(old, new, s, l) {
                                Ok(v) => return Ok(v),
                                Err(v) => old = v,
                            }
                        }
                        Err(old)
                    }

                    pub fn get_mut(&mut self) -> &mut $ty {
                        self.0.get_mut()
                    }

                    pub fn into_inner(self) -> $ty {
                        self.0.into_inner()
                    }
                    common!(@ops $ty; fetch_and fetch_nand fetch_or fetch_xor);
                }
            };
            (@ops $ty: ty; $($op: ident)*) => {
                $(pub fn $op(&self, v: $ty, o: Ordering) -> $ty {
                    at();
                    self.0.$op(v, o)
                })*
            };
        }

        macro_rules! number {
            ($($name: ident $ty: ty;)*) => {
                $(common!($name, $ty);
                impl $name {
                    common!(@ops $ty; fetch_add fetch_sub fetch_max fetch_min);
                })*
            };
        }

        common!(AtomicBool, bool);
        number! {
            AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize;
            AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize;
        }
    }
}
