//! std::sync with locks, atomics and channels that report to the scheduler.
pub use ::std::sync::*;

use crate::weave;
use ::std::fmt;
use ::std::mem::ManuallyDrop;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::AtomicUsize as Id;
use ::std::sync::atomic::Ordering::SeqCst;

fn id_of(i: &Id) -> usize {
    let v = i.load(SeqCst);
    if v != 0 {
        return v;
    }
    let n = weave::fresh_id();
    match i.compare_exchange(0, n, SeqCst, SeqCst) {
        Ok(_) => n,
        Err(o) => o,
    }
}

macro_rules! guard {
    ($name:ident, $inner:ident, $write:expr, $($m:tt)?) => {
        pub struct $name<'a, T: ?Sized + 'a> {
            g: ManuallyDrop<::std::sync::$inner<'a, T>>,
            id: usize,
            held: bool,
            #[allow(dead_code)]
            owner: *const (),
        }
        impl<'a, T: ?Sized> Drop for $name<'a, T> {
            fn drop(&mut self) {
                unsafe { ManuallyDrop::drop(&mut self.g) }
                if self.held {
                    weave::release(self.id, $write)
                }
            }
        }
        impl<'a, T: ?Sized> Deref for $name<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.g
            }
        }
        $(
        impl<'a, T: ?Sized> DerefMut for $name<'a, T> {
            fn deref_mut(&$m self) -> &mut T {
                &mut self.g
            }
        })?
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $name<'a, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<'a, T: ?Sized + fmt::Display> fmt::Display for $name<'a, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<'a, T: ?Sized> $name<'a, T> {
            fn wrap(g: LockResult<::std::sync::$inner<'a, T>>, id: usize, owner: *const ()) -> LockResult<Self> {
                let held = weave::controlled();
                match g {
                    Ok(g) => Ok($name { g: ManuallyDrop::new(g), id, held, owner }),
                    Err(e) => Err(PoisonError::new($name { g: ManuallyDrop::new(e.into_inner()), id, held, owner })),
                }
            }
            fn wrap_try(g: TryLockResult<::std::sync::$inner<'a, T>>, id: usize, owner: *const ()) -> TryLockResult<Self> {
                match g {
                    Ok(g) => Self::wrap(Ok(g), id, owner).map_err(TryLockError::Poisoned),
                    Err(::std::sync::TryLockError::Poisoned(e)) => Self::wrap(Err(e), id, owner).map_err(TryLockError::Poisoned),
                    Err(::std::sync::TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                }
            }
        }
    };
}
guard!(MutexGuard, MutexGuard, true, mut);
guard!(RwLockReadGuard, RwLockReadGuard, false,);
guard!(RwLockWriteGuard, RwLockWriteGuard, true, mut);

macro_rules! lock_common {
    ($name:ident) => {
        impl<T> $name<T> {
            pub const fn new(t: T) -> Self {
                $name { id: Id::new(0), l: ::std::sync::$name::new(t) }
            }
            pub fn into_inner(self) -> LockResult<T> {
                self.l.into_inner()
            }
        }
        impl<T: ?Sized> $name<T> {
            pub fn is_poisoned(&self) -> bool {
                self.l.is_poisoned()
            }
            pub fn clear_poison(&self) {
                self.l.clear_poison()
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                self.l.get_mut()
            }
        }
        impl<T: Default> Default for $name<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }
        impl<T> From<T> for $name<T> {
            fn from(t: T) -> Self {
                Self::new(t)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.l.fmt(f)
            }
        }
    };
}

pub struct Mutex<T: ?Sized> {
    id: Id,
    l: ::std::sync::Mutex<T>,
}
lock_common!(Mutex);
impl<T: ?Sized> Mutex<T> {
    fn me(&self) -> *const () {
        self as *const Self as *const ()
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let id = id_of(&self.id);
        weave::acquire(id, true);
        MutexGuard::wrap(self.l.lock(), id, self.me())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let id = id_of(&self.id);
        if !weave::try_acquire(id, true) {
            return Err(TryLockError::WouldBlock);
        }
        MutexGuard::wrap_try(self.l.try_lock(), id, self.me())
    }
}

pub struct RwLock<T: ?Sized> {
    id: Id,
    l: ::std::sync::RwLock<T>,
}
lock_common!(RwLock);
impl<T: ?Sized> RwLock<T> {
    fn me(&self) -> *const () {
        self as *const Self as *const ()
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let id = id_of(&self.id);
        weave::acquire(id, false);
        RwLockReadGuard::wrap(self.l.read(), id, self.me())
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let id = id_of(&self.id);
        weave::acquire(id, true);
        RwLockWriteGuard::wrap(self.l.write(), id, self.me())
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let id = id_of(&self.id);
        if !weave::try_acquire(id, false) {
            return Err(TryLockError::WouldBlock);
        }
        RwLockReadGuard::wrap_try(self.l.try_read(), id, self.me())
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let id = id_of(&self.id);
        if !weave::try_acquire(id, true) {
            return Err(TryLockError::WouldBlock);
        }
        RwLockWriteGuard::wrap_try(self.l.try_write(), id, self.me())
    }
}

/// Works with this module's Mutex.
#[derive(Default)]
pub struct Condvar {
    id: Id,
    c: ::std::sync::Condvar,
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { id: Id::new(0), c: ::std::sync::Condvar::new() }
    }
    pub fn notify_one(&self) {
        weave::notify(id_of(&self.id), false);
        self.c.notify_one()
    }
    pub fn notify_all(&self) {
        weave::notify(id_of(&self.id), true);
        self.c.notify_all()
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = unsafe { &*(g.owner as *const Mutex<T>) };
        if weave::controlled() {
            let cond = id_of(&self.id);
            drop(g);
            weave::wait_cond(cond);
            return m.lock();
        }
        let mut g = ManuallyDrop::new(g);
        let inner = unsafe { ManuallyDrop::take(&mut g.g) };
        MutexGuard::wrap(self.c.wait(inner), g.id, g.owner)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
}

/// The initialiser runs under a lock the scheduler knows.
pub struct OnceLock<T> {
    lock: Mutex<()>,
    v: ::std::sync::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { lock: Mutex::new(()), v: ::std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        weave::point();
        self.v.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let _g = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
        self.v.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(v) = self.get() {
            return v;
        }
        let _g = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
        if self.v.get().is_none() {
            let t = f();
            let _ = self.v.set(t);
        }
        self.v.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.v.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.v.fmt(f)
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let n = Self::new();
        if let Some(v) = self.v.get() {
            let _ = n.v.set(v.clone());
        }
        n
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.v.get() == o.v.get()
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        let n = Self::new();
        let _ = n.v.set(t);
        n
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    v: OnceLock<T>,
    f: F,
}
impl<T, F: Fn() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { v: OnceLock::new(), f }
    }
    pub fn force(this: &Self) -> &T {
        this.v.get_or_init(|| (this.f)())
    }
}
impl<T, F: Fn() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use crate::weave::point;
    use ::std::fmt;

    macro_rules! atomic {
        ($name:ident, $t:ty, $($op:ident)*) => {
            #[derive(Default)]
            pub struct $name(::std::sync::atomic::$name);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    $name(::std::sync::atomic::$name::new(v))
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn load(&self, o: Ordering) -> $t {
                    point();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    point();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                    point();
                    self.0.fetch_update(s, f, g)
                }
                $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.$op(v, o)
                })*
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl fmt::Debug for $name {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    atomic!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
    atomic!(AtomicUsize, usize, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    atomic!(AtomicIsize, isize, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    atomic!(AtomicU64, u64, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    atomic!(AtomicI64, i64, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    atomic!(AtomicU32, u32, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    atomic!(AtomicI32, i32, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    atomic!(AtomicU8, u8, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
}

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use crate::chan::{self, Failed};
    use ::std::fmt;
    use ::std::time::Duration;

    pub struct Sender<T>(chan::Sender<T>);
    pub struct SyncSender<T>(chan::Sender<T>);
    pub struct Receiver<T>(chan::Receiver<T>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let (s, r) = chan::channel(None);
        (Sender(s), Receiver(r))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let (s, r) = chan::channel(Some(n));
        (SyncSender(s), Receiver(r))
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for SyncSender<T> {
        fn clone(&self) -> Self {
            SyncSender(self.0.clone())
        }
    }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            self.0.put(v, true).map_err(|e| SendError(e.0))
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            self.0.put(v, true).map_err(|e| SendError(e.0))
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            self.0.put(v, false).map_err(|e| match e.1 {
                Failed::Empty => TrySendError::Full(e.0),
                Failed::Closed => TrySendError::Disconnected(e.0),
            })
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            self.0.take(true, None).map_err(|_| RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            self.0.take(false, None).map_err(|e| match e {
                Failed::Empty => TryRecvError::Empty,
                Failed::Closed => TryRecvError::Disconnected,
            })
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            self.0.take(true, Some(d)).map_err(|e| match e {
                Failed::Empty => RecvTimeoutError::Timeout,
                Failed::Closed => RecvTimeoutError::Disconnected,
            })
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            Iter(self)
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Receiver")
        }
    }
}
