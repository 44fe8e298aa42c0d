//! `std` with every operation through which threads can see each other made a scheduling point.
//! A copy of the library is compiled with this crate under the name `std` (see check.sh), so that
//! the explorer decides which thread goes on at each of these points. Without an explorer (no hook
//! on this thread) everything behaves as in `std`.
pub use ::std::*;

pub mod sched {
    use ::std::cell::Cell;
    /// Called at each scheduling point. With `Some(f)` the thread cannot go on until `f()`.
    pub type Hook = fn(Option<&dyn Fn() -> bool>);
    ::std::thread_local! { static HOOK: Cell<Option<Hook>> = const { Cell::new(None) }; }
    pub fn set_hook(h: Option<Hook>) {
        HOOK.with(|c| c.set(h));
    }
    pub fn point() {
        if let Some(h) = HOOK.with(|c| c.get()) {
            h(None)
        }
    }
    /// False if there is no explorer.
    pub fn block(until: &dyn Fn() -> bool) -> bool {
        match HOOK.with(|c| c.get()) {
            Some(h) => {
                h(Some(until));
                true
            }
            None => false,
        }
    }
}

pub mod sync {
    use crate::sched::{block, point};
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as real;
    pub use ::std::sync::*;

    pub mod atomic {
        use crate::sched::point;
        use ::std::sync::atomic as real;
        pub use ::std::sync::atomic::*;
        macro_rules! common {
            ($n:ident, $t:ty) => {
                #[derive(Default, Debug)]
                #[repr(transparent)]
                pub struct $n(real::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        Self(real::$n::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                        point();
                        self.0.fetch_update(s, f, g)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! fetch {
            ($n:ident, $t:ty, $($f:ident)*) => {
                impl $n {
                    $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                        point();
                        self.0.$f(v, o)
                    })*
                }
            };
        }
        macro_rules! int {
            ($($n:ident $t:ty),*) => { $(
                common!($n, $t);
                fetch!($n, $t, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
            )* };
        }
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
        common!(AtomicBool, bool);
        fetch!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
    }

    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(real::Mutex<T>);
    pub struct MutexGuard<'a, T: ?Sized + 'a>(Option<real::MutexGuard<'a, T>>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Self(real::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn free(&self) -> bool {
            !matches!(self.0.try_lock(), Err(TryLockError::WouldBlock))
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            point();
            while !self.free() && block(&|| self.free()) {}
            match self.0.lock() {
                Ok(g) => Ok(MutexGuard(Some(g))),
                Err(e) => Err(PoisonError::new(MutexGuard(Some(e.into_inner())))),
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point();
            match self.0.try_lock() {
                Ok(g) => Ok(MutexGuard(Some(g))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard(Some(e.into_inner()))))),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.0 = None;
            if !::std::thread::panicking() {
                point();
            }
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(real::RwLock<T>);
    pub struct RwLockReadGuard<'a, T: ?Sized + 'a>(Option<real::RwLockReadGuard<'a, T>>);
    pub struct RwLockWriteGuard<'a, T: ?Sized + 'a>(Option<real::RwLockWriteGuard<'a, T>>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            Self(real::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn readable(&self) -> bool {
            !matches!(self.0.try_read(), Err(TryLockError::WouldBlock))
        }
        fn writable(&self) -> bool {
            !matches!(self.0.try_write(), Err(TryLockError::WouldBlock))
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            point();
            while !self.readable() && block(&|| self.readable()) {}
            match self.0.read() {
                Ok(g) => Ok(RwLockReadGuard(Some(g))),
                Err(e) => Err(PoisonError::new(RwLockReadGuard(Some(e.into_inner())))),
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            point();
            while !self.writable() && block(&|| self.writable()) {}
            match self.0.write() {
                Ok(g) => Ok(RwLockWriteGuard(Some(g))),
                Err(e) => Err(PoisonError::new(RwLockWriteGuard(Some(e.into_inner())))),
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0 = None;
            if !::std::thread::panicking() {
                point();
            }
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.0 = None;
            if !::std::thread::panicking() {
                point();
            }
        }
    }
}
