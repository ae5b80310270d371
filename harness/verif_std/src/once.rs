//! Initialisation that happens once: whoever comes meanwhile waits under the scheduler's control.
use crate::sync_impl::Mutex;
use std::fmt;
use std::ops::Deref;

pub struct OnceLock<T>(Mutex<()>, std::sync::OnceLock<T>);
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock(Mutex::new(()), std::sync::OnceLock::new())
    }
    pub fn get(&self) -> Option<&T> {
        crate::sched::point();
        self.1.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.1.get_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let _g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        self.1.set(v)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let _g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        self.1.get_or_init(f)
    }
    pub fn into_inner(self) -> Option<T> {
        self.1.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.1.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock(Mutex::new(()), self.1.clone())
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        OnceLock(Mutex::new(()), std::sync::OnceLock::from(v))
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.1.fmt(f)
    }
}

pub struct LazyLock<T, F = fn() -> T>(Mutex<()>, std::sync::LazyLock<T, F>);
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock(Mutex::new(()), std::sync::LazyLock::new(f))
    }
    pub fn force(this: &Self) -> &T {
        let _g = this.0.lock().unwrap_or_else(|e| e.into_inner());
        std::sync::LazyLock::force(&this.1)
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct Once(Mutex<()>, std::sync::Once);
impl Once {
    pub const fn new() -> Self {
        Once(Mutex::new(()), std::sync::Once::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let _g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        self.1.call_once(f)
    }
    pub fn is_completed(&self) -> bool {
        crate::sched::point();
        self.1.is_completed()
    }
}
