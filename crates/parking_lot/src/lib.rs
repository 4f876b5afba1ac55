//! Stand-in for the `parking_lot` crate: same interface, every operation is a
//! scheduling point of `schedrt`.

use schedrt::{CondState, LockState};
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::time::{Duration, Instant};

type NotSend = std::marker::PhantomData<*mut ()>;

// ------------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> {
    l: LockState,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;

#[must_use]
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    _p: NotSend,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub fn new(v: T) -> Self {
        Mutex { l: LockState::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn g(&self) -> MutexGuard<'_, T> {
        MutexGuard { m: self, _p: Default::default() }
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.l.lock();
        self.g()
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.l.try_lock().then(|| self.g())
    }
    pub fn try_lock_for(&self, _: Duration) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
    pub fn try_lock_until(&self, _: Instant) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
    pub fn is_locked(&self) -> bool {
        self.l.is_locked()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
    /// # Safety
    /// the lock must be held
    pub unsafe fn force_unlock(&self) {
        self.l.unlock()
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn mutex(s: &Self) -> &'a Mutex<T> {
        s.m
    }
    pub fn unlocked<F: FnOnce() -> U, U>(s: &mut Self, f: F) -> U {
        s.m.l.unlock();
        let r = f();
        s.m.l.lock();
        r
    }
    pub fn unlocked_fair<F: FnOnce() -> U, U>(s: &mut Self, f: F) -> U {
        Self::unlocked(s, f)
    }
    pub fn bump(s: &mut Self) {
        Self::unlocked(s, || ())
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.l.unlock()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ------------------------------------------------------------------ RwLock

pub struct RwLock<T: ?Sized> {
    l: LockState,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized> {
    m: &'a RwLock<T>,
    _p: NotSend,
}
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    m: &'a RwLock<T>,
    _p: NotSend,
}
#[must_use]
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized> {
    // one upgradable reader at a time: modelled as exclusive
    m: &'a RwLock<T>,
    _p: NotSend,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub fn new(v: T) -> Self {
        RwLock { l: LockState::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.l.lock_shared();
        RwLockReadGuard { m: self, _p: Default::default() }
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.l.try_lock_shared().then(|| RwLockReadGuard { m: self, _p: Default::default() })
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.l.lock();
        RwLockWriteGuard { m: self, _p: Default::default() }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.l.try_lock().then(|| RwLockWriteGuard { m: self, _p: Default::default() })
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        self.l.lock();
        RwLockUpgradableReadGuard { m: self, _p: Default::default() }
    }
    pub fn is_locked(&self) -> bool {
        self.l.is_locked()
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.l.is_locked_exclusive()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
}
macro_rules! read_guard {
    ($g:ident, $unlock:ident) => {
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.m.v.get() }
            }
        }
        impl<T: ?Sized> Drop for $g<'_, T> {
            fn drop(&mut self) {
                self.m.l.$unlock()
            }
        }
        impl<'a, T: ?Sized> $g<'a, T> {
            pub fn rwlock(s: &Self) -> &'a RwLock<T> {
                s.m
            }
            pub fn unlock_fair(s: Self) {
                drop(s)
            }
        }
    };
}
read_guard!(RwLockReadGuard, unlock_shared);
read_guard!(RwLockWriteGuard, unlock);
read_guard!(RwLockUpgradableReadGuard, unlock);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let m = s.m;
        std::mem::forget(s);
        m.l.downgrade();
        RwLockReadGuard { m, _p: Default::default() }
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let m = s.m;
        std::mem::forget(s);
        RwLockWriteGuard { m, _p: Default::default() }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let m = s.m;
        std::mem::forget(s);
        m.l.downgrade();
        RwLockReadGuard { m, _p: Default::default() }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}

// ----------------------------------------------------------------- Condvar

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar {
    c: CondState,
}
impl Condvar {
    pub fn new() -> Self {
        Condvar { c: CondState::new() }
    }
    pub fn notify_one(&self) -> bool {
        self.c.notify_one()
    }
    pub fn notify_all(&self) -> usize {
        self.c.notify_all()
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.c.wait(&g.m.l, false);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(self.c.wait(&g.m.l, true))
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: Instant) -> WaitTimeoutResult {
        WaitTimeoutResult(self.c.wait(&g.m.l, true))
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut **g) {
            self.wait(g);
        }
    }
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: &mut MutexGuard<'_, T>,
        mut f: F,
        d: Duration,
    ) -> WaitTimeoutResult {
        while f(&mut **g) {
            if self.wait_for(g, d).timed_out() {
                return WaitTimeoutResult(f(&mut **g));
            }
        }
        WaitTimeoutResult(false)
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}

// -------------------------------------------------------------------- Once

#[derive(Debug, Default)]
pub struct Once {
    m: Mutex<bool>,
}
impl Once {
    pub fn new() -> Self {
        Once { m: Mutex::new(false) }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut g = self.m.lock();
        if !*g {
            f();
            *g = true;
        }
    }
}
