//! Reference counts: whether a value is still alive, and how often it is referred to, are scheduling points.
use crate::sched::point;
use std::borrow::Borrow;
use std::fmt;
use std::marker::Unsize;
use std::mem::ManuallyDrop;
use std::ops::{CoerceUnsized, Deref, DispatchFromDyn};
use std::sync::{Arc as A, Weak as W};

#[derive(Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Arc<T: ?Sized>(A<T>);
pub struct Weak<T: ?Sized>(W<T>);

impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}

impl<T: ?Sized> Arc<T> {
    fn take(self) -> A<T> {
        let this = ManuallyDrop::new(self);
        unsafe { std::ptr::read(&this.0) }
    }
    pub fn downgrade(this: &Self) -> Weak<T> {
        Weak(A::downgrade(&this.0))
    }
    pub fn strong_count(this: &Self) -> usize {
        point();
        A::strong_count(&this.0)
    }
    pub fn weak_count(this: &Self) -> usize {
        point();
        A::weak_count(&this.0)
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        A::ptr_eq(&a.0, &b.0)
    }
    pub fn as_ptr(this: &Self) -> *const T {
        A::as_ptr(&this.0)
    }
    pub fn into_raw(this: Self) -> *const T {
        A::into_raw(this.take())
    }
    pub unsafe fn from_raw(p: *const T) -> Self {
        Arc(A::from_raw(p))
    }
    pub unsafe fn increment_strong_count(p: *const T) {
        A::increment_strong_count(p)
    }
    pub unsafe fn decrement_strong_count(p: *const T) {
        point();
        A::decrement_strong_count(p)
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        point();
        A::get_mut(&mut this.0)
    }
}
impl<T> Arc<T> {
    pub fn new(v: T) -> Self {
        Arc(A::new(v))
    }
    pub fn pin(v: T) -> std::pin::Pin<Self> {
        unsafe { std::pin::Pin::new_unchecked(Arc::new(v)) }
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
        Arc(A::new_cyclic(|w| f(&Weak(w.clone()))))
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        point();
        A::try_unwrap(this.take()).map_err(Arc)
    }
    pub fn into_inner(this: Self) -> Option<T> {
        point();
        A::into_inner(this.take())
    }
}
impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        point();
        A::make_mut(&mut this.0)
    }
    pub fn unwrap_or_clone(this: Self) -> T {
        point();
        A::unwrap_or_clone(this.take())
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        if A::weak_count(&self.0) > 0 {
            point();
        }
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        Arc(self.0.clone())
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&self.0, f)
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc(A::default())
    }
}
impl<T: ?Sized, X> From<X> for Arc<T>
where
    A<T>: From<X>,
{
    fn from(x: X) -> Self {
        Arc(A::from(x))
    }
}
impl<T> std::iter::FromIterator<T> for Arc<[T]> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Arc(i.into_iter().collect())
    }
}
impl<T: ?Sized + std::error::Error> std::error::Error for Arc<T> {}

impl<T> Weak<T> {
    pub const fn new() -> Self {
        Weak(W::new())
    }
}
impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        point();
        self.0.upgrade().map(Arc)
    }
    pub fn strong_count(&self) -> usize {
        point();
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        point();
        self.0.weak_count()
    }
    pub fn ptr_eq(&self, o: &Self) -> bool {
        self.0.ptr_eq(&o.0)
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        Weak(self.0.clone())
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("(Weak)")
    }
}
