//! `RwLock` and `Mutex` with the interface of the standard library.
use crate::ctl::{self, Kind};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

pub struct RwLock<T: ?Sized> {
    pub(crate) name: ctl::Name,
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
    owner: Held<'a, T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
    owner: Held<'a, T>,
}
/// what a guard has to give back
struct Held<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    seen: bool,
    kind: Kind,
}
impl<T: ?Sized> Held<'_, T> {
    fn give_back(&self) {
        if self.seen {
            ctl::released(&self.lock.name, self.kind);
        }
        if ctl::aborting() {
            self.lock.inner.clear_poison();
        }
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { name: ctl::Name::new(), inner: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let seen = ctl::acquire(&self.name, Kind::Read);
        let owner = Held { lock: self, seen, kind: Kind::Read };
        match self.inner.read() {
            Ok(g) => Ok(RwLockReadGuard { g: Some(g), owner }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard { g: Some(e.into_inner()), owner })),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let seen = ctl::acquire(&self.name, Kind::Write);
        let owner = Held { lock: self, seen, kind: Kind::Write };
        match self.inner.write() {
            Ok(g) => Ok(RwLockWriteGuard { g: Some(g), owner }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard { g: Some(e.into_inner()), owner })),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let seen = match ctl::try_acquire(&self.name, Kind::Read) {
            Some(false) => return Err(TryLockError::WouldBlock),
            Some(true) => true,
            None => false,
        };
        let owner = Held { lock: self, seen, kind: Kind::Read };
        match self.inner.try_read() {
            Ok(g) => Ok(RwLockReadGuard { g: Some(g), owner }),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { g: Some(e.into_inner()), owner }))),
            Err(TryLockError::WouldBlock) => {
                owner.give_back();
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let seen = match ctl::try_acquire(&self.name, Kind::Write) {
            Some(false) => return Err(TryLockError::WouldBlock),
            Some(true) => true,
            None => false,
        };
        let owner = Held { lock: self, seen, kind: Kind::Write };
        match self.inner.try_write() {
            Ok(g) => Ok(RwLockWriteGuard { g: Some(g), owner }),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { g: Some(e.into_inner()), owner }))),
            Err(TryLockError::WouldBlock) => {
                owner.give_back();
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.g.take();
        self.owner.give_back();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.g.take();
        self.owner.give_back();
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

/// a mutex is a lock that is only ever taken for writing
pub struct Mutex<T: ?Sized>(RwLock<T>);
pub struct MutexGuard<'a, T: ?Sized>(RwLockWriteGuard<'a, T>);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex(RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        match self.0.write() {
            Ok(g) => Ok(MutexGuard(g)),
            Err(e) => Err(PoisonError::new(MutexGuard(e.into_inner()))),
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        match self.0.try_write() {
            Ok(g) => Ok(MutexGuard(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard(e.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> ctl::HasName for RwLock<T> {
    fn name(&self) -> &ctl::Name {
        &self.name
    }
}
