//! `std` with loom's synchronisation primitives.
pub use std::*;
pub mod sync {
    pub use loom::sync::{Barrier, Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use std::sync::*;
    pub mod atomic {
        pub use loom::sync::atomic::{fence, AtomicPtr, Ordering};
        /// loom leaves the place of a store among concurrent read-modify-write operations open even where their
        /// atomicity decides it (a `swap` that replaces a value by itself may then be read as if it came after
        /// a store which came later). Stores are therefore made as exchanges: all writes to a variable are totally
        /// ordered. Loads may still give any older value that the memory model permits.
        macro_rules! ordered {
            ($($name:ident $t:ty),*) => {$(
                #[derive(Debug)]
                pub struct $name(loom::sync::atomic::$name);
                impl $name {
                    pub fn new(v: $t) -> Self {
                        Self(loom::sync::atomic::$name::new(v))
                    }
                    pub fn store(&self, v: $t, order: Ordering) {
                        self.0.swap(v, order);
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl Default for $name {
                    fn default() -> Self {
                        Self::new(Default::default())
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl std::ops::Deref for $name {
                    type Target = loom::sync::atomic::$name;
                    fn deref(&self) -> &Self::Target {
                        &self.0
                    }
                }
            )*};
        }
        ordered!(AtomicBool bool, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
            AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    }
}
pub mod thread {
    pub use loom::thread::*;
    pub use std::thread::Result;
    pub fn sleep(_: std::time::Duration) {
        loom::thread::yield_now();
    }
}
pub mod hint {
    pub use loom::hint::spin_loop;
    pub use std::hint::*;
}
