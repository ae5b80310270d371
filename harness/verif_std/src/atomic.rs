use crate::sched::{point, point_load, spurious, wrote};
pub use std::sync::atomic::{compiler_fence, fence, Ordering};

macro_rules! common {
    ($N:ident, $T:ty, $R:ty, $bits:expr, [$($g:tt)*]) => {
        impl<$($g)*> $N<$($g)*> {
            #[inline]
            fn loc(&self) -> usize {
                self as *const _ as *const u8 as usize
            }
            #[inline]
            fn read(&self) {
                point_load(self.loc(), || {
                    let b: fn($T) -> u64 = $bits;
                    b(self.0.load(Ordering::SeqCst))
                });
            }
            pub const fn new(v: $T) -> Self {
                Self(<$R>::new(v))
            }
            pub fn get_mut(&mut self) -> &mut $T {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $T {
                self.0.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $T {
                self.0.as_ptr()
            }
            pub fn load(&self, o: Ordering) -> $T {
                self.read();
                self.0.load(o)
            }
            pub fn store(&self, v: $T, o: Ordering) {
                point();
                self.0.store(v, o);
                wrote(self.loc());
            }
            pub fn swap(&self, v: $T, o: Ordering) -> $T {
                point();
                let r = self.0.swap(v, o);
                wrote(self.loc());
                r
            }
            pub fn compare_exchange(&self, a: $T, b: $T, o: Ordering, p: Ordering) -> Result<$T, $T> {
                point();
                let r = self.0.compare_exchange(a, b, o, p);
                if r.is_ok() {
                    wrote(self.loc());
                }
                r
            }
            pub fn compare_exchange_weak(&self, a: $T, b: $T, o: Ordering, p: Ordering) -> Result<$T, $T> {
                point();
                if spurious() {
                    return Err(self.0.load(p));
                }
                let r = self.0.compare_exchange(a, b, o, p);
                if r.is_ok() {
                    wrote(self.loc());
                }
                r
            }
            pub fn compare_and_swap(&self, a: $T, b: $T, _: Ordering) -> $T {
                match self.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) {
                    Ok(x) | Err(x) => x,
                }
            }
            pub fn fetch_update<F: FnMut($T) -> Option<$T>>(&self, o: Ordering, p: Ordering, mut f: F) -> Result<$T, $T> {
                let mut prev = self.load(p);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, o, p) {
                        x @ Ok(_) => return x,
                        Err(x) => prev = x,
                    }
                }
                Err(prev)
            }
            pub fn try_update(&self, o: Ordering, p: Ordering, f: impl FnMut($T) -> Option<$T>) -> Result<$T, $T> {
                self.fetch_update(o, p, f)
            }
            pub fn update(&self, o: Ordering, p: Ordering, mut f: impl FnMut($T) -> $T) -> $T {
                self.fetch_update(o, p, |x| Some(f(x))).unwrap_or_else(|x| x)
            }
        }
        impl<$($g)*> std::fmt::Debug for $N<$($g)*> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                std::fmt::Debug::fmt(&self.load(Ordering::SeqCst), f)
            }
        }
        impl<$($g)*> From<$T> for $N<$($g)*> {
            fn from(v: $T) -> Self {
                Self::new(v)
            }
        }
    };
}
macro_rules! rmw {
    ($N:ident, $T:ty, $($f:ident),*) => {
        impl $N {
            $(pub fn $f(&self, v: $T, o: Ordering) -> $T {
                point();
                let r = self.0.$f(v, o);
                wrote(self.loc());
                r
            })*
        }
    };
}
macro_rules! int {
    ($($N:ident $T:ty;)*) => {$(
        #[repr(transparent)]
        pub struct $N(std::sync::atomic::$N);
        common!($N, $T, std::sync::atomic::$N, |v| v as u64, []);
        rmw!($N, $T, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
        impl Default for $N {
            fn default() -> Self {
                Self::new(0)
            }
        }
    )*};
}
int! {
    AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize;
    AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize;
}
#[repr(transparent)]
pub struct AtomicBool(std::sync::atomic::AtomicBool);
common!(AtomicBool, bool, std::sync::atomic::AtomicBool, |v| v as u64, []);
rmw!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
#[repr(transparent)]
pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
common!(AtomicPtr, *mut T, std::sync::atomic::AtomicPtr<T>, |v| v as usize as u64, [T]);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
#[allow(deprecated)]
pub fn spin_loop_hint() {
    crate::sched::give_way()
}
