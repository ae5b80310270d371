use crate::sched::{block, point, wake};
use std::fmt;
use std::ops::{Deref, DerefMut};
pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
    g: Option<std::sync::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex(std::sync::Mutex::new(v))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard<'a>(&'a self, g: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { m: self, g: Some(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        point();
        loop {
            match self.0.try_lock() {
                Ok(g) => return Ok(self.guard(g)),
                Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(self.guard(p.into_inner()))),
                Err(TryLockError::WouldBlock) => block(addr(self)),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point();
        match self.0.try_lock() {
            Ok(g) => Ok(self.guard(g)),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.guard(p.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        self.g = None;
        wake(addr(self.m));
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}

pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
macro_rules! rwguard {
    ($G:ident, $($m:tt)*) => {
        pub struct $G<'a, T: ?Sized + 'a> {
            m: &'a RwLock<T>,
            g: Option<std::sync::$G<'a, T>>,
        }
        impl<'a, T: ?Sized> Drop for $G<'a, T> {
            fn drop(&mut self) {
                self.g = None;
                wake(addr(self.m));
            }
        }
        impl<'a, T: ?Sized> Deref for $G<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.g.as_ref().unwrap()
            }
        }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $G<'a, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
rwguard!(RwLockReadGuard,);
rwguard!(RwLockWriteGuard,);
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
macro_rules! rwlock {
    ($lock:ident, $try:ident, $G:ident) => {
        pub fn $lock(&self) -> LockResult<$G<'_, T>> {
            point();
            loop {
                match self.0.$try() {
                    Ok(g) => return Ok($G { m: self, g: Some(g) }),
                    Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new($G { m: self, g: Some(p.into_inner()) })),
                    Err(TryLockError::WouldBlock) => block(addr(self)),
                }
            }
        }
        pub fn $try(&self) -> TryLockResult<$G<'_, T>> {
            point();
            match self.0.$try() {
                Ok(g) => Ok($G { m: self, g: Some(g) }),
                Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new($G { m: self, g: Some(p.into_inner()) }))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock(std::sync::RwLock::new(v))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    rwlock!(read, try_read, RwLockReadGuard);
    rwlock!(write, try_write, RwLockWriteGuard);
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}

#[derive(Debug, Default)]
pub struct Condvar(std::sync::Mutex<usize>);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(std::sync::Mutex::new(0))
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        drop(g);
        block(addr(self));
        m.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// Time does not pass by itself: whoever waits for it gives way, and the time is over.
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: std::time::Duration) -> LockResult<(MutexGuard<'a, T>, bool)> {
        let m = g.m;
        drop(g);
        crate::sched::give_way();
        match m.lock() {
            Ok(g) => Ok((g, true)),
            Err(e) => Err(PoisonError::new((e.into_inner(), true))),
        }
    }
    // Waking too many is within what a condition variable may do.
    pub fn notify_one(&self) {
        self.notify_all()
    }
    pub fn notify_all(&self) {
        point();
        wake(addr(self));
    }
}

pub mod mpsc {
    use super::*;
    use std::collections::VecDeque;
    use std::sync::Arc;
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

    struct Chan<T> {
        q: VecDeque<T>,
        senders: usize,
        receiver: bool,
        cap: usize,
    }
    type Shared<T> = Arc<std::sync::Mutex<Chan<T>>>;
    fn at<T, R>(c: &Shared<T>, f: impl FnOnce(&mut Chan<T>) -> R) -> R {
        f(&mut c.lock().unwrap_or_else(|e| e.into_inner()))
    }
    fn id<T>(c: &Shared<T>) -> usize {
        Arc::as_ptr(c) as *const u8 as usize
    }

    macro_rules! sender {
        ($S:ident) => {
            pub struct $S<T>(Shared<T>);
            impl<T> Clone for $S<T> {
                fn clone(&self) -> Self {
                    at(&self.0, |c| c.senders += 1);
                    $S(self.0.clone())
                }
            }
            impl<T> Drop for $S<T> {
                fn drop(&mut self) {
                    at(&self.0, |c| c.senders -= 1);
                    wake(id(&self.0));
                }
            }
            impl<T> fmt::Debug for $S<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, concat!(stringify!($S), " {{ .. }}"))
                }
            }
            impl<T> $S<T> {
                pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                    point();
                    let mut v = Some(v);
                    loop {
                        let r = at(&self.0, |c| {
                            if !c.receiver {
                                Some(false)
                            } else if c.q.len() < c.cap {
                                c.q.push_back(v.take().unwrap());
                                Some(true)
                            } else {
                                None
                            }
                        });
                        match r {
                            Some(true) => {
                                wake(id(&self.0));
                                return Ok(());
                            }
                            Some(false) => return Err(SendError(v.take().unwrap())),
                            None => block(id(&self.0)),
                        }
                    }
                }
            }
        };
    }
    sender!(Sender);
    sender!(SyncSender);
    pub struct Receiver<T>(Shared<T>);
    unsafe impl<T: Send> Send for Receiver<T> {}
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            let q = at(&self.0, |c| {
                c.receiver = false;
                std::mem::take(&mut c.q)
            });
            drop(q);
            wake(id(&self.0));
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Receiver {{ .. }}")
        }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            point();
            let r = at(&self.0, |c| match c.q.pop_front() {
                Some(v) => Ok(v),
                None if c.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            });
            wake(id(&self.0));
            r
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            loop {
                match self.try_recv() {
                    Ok(v) => return Ok(v),
                    Err(TryRecvError::Disconnected) => return Err(RecvError),
                    Err(TryRecvError::Empty) => block(id(&self.0)),
                }
            }
        }
        pub fn recv_timeout(&self, _: std::time::Duration) -> Result<T, RecvTimeoutError> {
            self.try_recv().map_err(|e| match e {
                TryRecvError::Empty => RecvTimeoutError::Timeout,
                TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
            })
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
    }
    pub struct TryIter<'a, T: 'a>(&'a Receiver<T>);
    impl<'a, T> Iterator for TryIter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct Iter<'a, T: 'a>(&'a Receiver<T>);
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    fn chan<T>(cap: usize) -> Shared<T> {
        Arc::new(std::sync::Mutex::new(Chan { q: VecDeque::new(), senders: 1, receiver: true, cap }))
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = chan(usize::MAX);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = chan(n.max(1));
        (SyncSender(c.clone()), Receiver(c))
    }
}
