use crate::control::{block, point, released};
pub use std::sync::{
    Arc, Barrier, BarrierWaitResult, LazyLock, LockResult, Once, OnceState, PoisonError, TryLockError, TryLockResult, Weak, mpsc,
};
use std::fmt;
use std::ops::{Deref, DerefMut};

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

#[derive(Default)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized> {
    g: Option<std::sync::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        point(addr(self));
        loop {
            match self.0.try_lock() {
                Ok(g) => return Ok(MutexGuard { g: Some(g), m: self }),
                Err(TryLockError::Poisoned(e)) => {
                    return Err(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m: self }));
                }
                Err(TryLockError::WouldBlock) => {
                    if !block(addr(self)) {
                        panic!("lock held outside a parallel section");
                    }
                }
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point(addr(self));
        match self.0.try_lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m: self })))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        released(addr(self.m));
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
    a: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
    a: usize,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(std::sync::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
macro_rules! rw {
    ($lock:ident, $try_:ident, $g:ident) => {
        pub fn $lock(&self) -> LockResult<$g<'_, T>> {
            let a = addr(self);
            point(a);
            loop {
                match self.0.$try_() {
                    Ok(g) => return Ok($g { g: Some(g), a }),
                    Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new($g { g: Some(e.into_inner()), a })),
                    Err(TryLockError::WouldBlock) => {
                        if !block(a) {
                            panic!("lock held outside a parallel section");
                        }
                    }
                }
            }
        }
        pub fn $try_(&self) -> TryLockResult<$g<'_, T>> {
            let a = addr(self);
            point(a);
            match self.0.$try_() {
                Ok(g) => Ok($g { g: Some(g), a }),
                Err(TryLockError::Poisoned(e)) => {
                    Err(TryLockError::Poisoned(PoisonError::new($g { g: Some(e.into_inner()), a })))
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, RwLockReadGuard);
    rw!(write, try_write, RwLockWriteGuard);
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        released(self.a);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        released(self.a);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Default)]
pub struct Condvar(#[allow(dead_code)] u8);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(0)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        drop(g);
        if !block(addr(self)) {
            panic!("waiting outside a parallel section");
        }
        m.lock()
    }
    pub fn wait_while<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: impl FnMut(&mut T) -> bool,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        self.notify_all()
    }
    pub fn notify_all(&self) {
        point(addr(self));
        released(addr(self));
    }
}

pub mod atomic {
    use super::addr;
    use crate::control::point;
    pub use std::sync::atomic::{Ordering, compiler_fence};
    use std::sync::atomic::Ordering::SeqCst;
    pub fn fence(_: Ordering) {}
    macro_rules! common {
        ($n:ident, $t:ty) => {
            #[derive(Default, Debug)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    $n(std::sync::atomic::$n::new(v))
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn load(&self, _: Ordering) -> $t {
                    point(addr(self));
                    self.0.load(SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    point(addr(self));
                    self.0.store(v, SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    point(addr(self));
                    self.0.swap(v, SeqCst)
                }
                pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point(addr(self));
                    self.0.compare_exchange(c, n, SeqCst, SeqCst)
                }
                pub fn compare_exchange_weak(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(c, n, a, b)
                }
                pub fn fetch_update(
                    &self,
                    a: Ordering,
                    b: Ordering,
                    mut f: impl FnMut($t) -> Option<$t>,
                ) -> Result<$t, $t> {
                    let mut p = self.load(b);
                    while let Some(n) = f(p) {
                        match self.compare_exchange_weak(p, n, a, b) {
                            Ok(x) => return Ok(x),
                            Err(x) => p = x,
                        }
                    }
                    Err(p)
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self {
                    $n::new(v)
                }
            }
        };
    }
    macro_rules! ops {
        ($n:ident, $t:ty, $($f:ident)*) => {
            impl $n {
                $(pub fn $f(&self, v: $t, _: Ordering) -> $t {
                    point(addr(self));
                    self.0.$f(v, SeqCst)
                })*
            }
        };
    }
    common!(AtomicBool, bool);
    ops!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
    macro_rules! ints {
        ($($n:ident $t:ty),*) => {$(
            common!($n, $t);
            ops!($n, $t, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
        )*};
    }
    ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
          AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
}
