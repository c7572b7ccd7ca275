pub use std::sync::*;
use crate::sched::{self, Op};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::time::{Duration, Instant};

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

// ---------------------------------------------------------------- Mutex

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    inner: std::sync::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    g: Option<std::sync::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { inner: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn guard<'a>(&'a self, g: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { lock: self, g: Some(g) }
    }
    fn wrap<'a>(
        &'a self,
        r: LockResult<std::sync::MutexGuard<'a, T>>,
    ) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(self.guard(g)),
            Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if sched::active() {
            sched::point(Op::Lock);
            self.relock()
        } else {
            self.wrap(self.inner.lock())
        }
    }
    fn relock(&self) -> LockResult<MutexGuard<'_, T>> {
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(self.guard(g)),
                Err(TryLockError::Poisoned(e)) => {
                    return Err(PoisonError::new(self.guard(e.into_inner())))
                }
                Err(TryLockError::WouldBlock) => {
                    sched::block(addr(self), false, Op::Lock);
                }
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point(Op::Lock);
        match self.inner.try_lock() {
            Ok(g) => Ok(self.guard(g)),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.guard(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.g.take().is_some() && sched::active() {
            sched::wake_all(addr(self.lock));
            sched::point(Op::Unlock);
        }
    }
}
impl<T: ?Sized + serde::Serialize> serde::Serialize for Mutex<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        match self.lock() {
            Ok(g) => (*g).serialize(s),
            Err(_) => Err(serde::ser::Error::custom("lock poison error while serializing")),
        }
    }
}
impl<'de, T: serde::Deserialize<'de>> serde::Deserialize<'de> for Mutex<T> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        T::deserialize(d).map(Mutex::new)
    }
}

// ---------------------------------------------------------------- RwLock

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { inner: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let mk = |g| RwLockReadGuard { lock: self, g: Some(g) };
        if !sched::active() {
            return self.inner.read().map(mk).map_err(|e| PoisonError::new(mk(e.into_inner())));
        }
        sched::point(Op::Lock);
        loop {
            match self.inner.try_read() {
                Ok(g) => return Ok(mk(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(mk(e.into_inner()))),
                Err(TryLockError::WouldBlock) => {
                    sched::block(addr(self), false, Op::Lock);
                }
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let mk = |g| RwLockWriteGuard { lock: self, g: Some(g) };
        if !sched::active() {
            return self.inner.write().map(mk).map_err(|e| PoisonError::new(mk(e.into_inner())));
        }
        sched::point(Op::Lock);
        loop {
            match self.inner.try_write() {
                Ok(g) => return Ok(mk(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(mk(e.into_inner()))),
                Err(TryLockError::WouldBlock) => {
                    sched::block(addr(self), false, Op::Lock);
                }
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        if self.g.take().is_some() && sched::active() {
            sched::wake_all(addr(self.lock));
            sched::point(Op::Unlock);
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if self.g.take().is_some() && sched::active() {
            sched::wake_all(addr(self.lock));
            sched::point(Op::Unlock);
        }
    }
}
impl<T: ?Sized + serde::Serialize> serde::Serialize for RwLock<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        match self.read() {
            Ok(g) => (*g).serialize(s),
            Err(_) => Err(serde::ser::Error::custom("lock poison error while serializing")),
        }
    }
}

// ---------------------------------------------------------------- Condvar

#[derive(Default, Debug)]
pub struct Condvar {
    inner: std::sync::Condvar,
    _pad: u8,
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { inner: std::sync::Condvar::new(), _pad: 0 }
    }
    fn sim_wait<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        timed: bool,
    ) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let lock = g.lock;
        drop(g.g.take());
        drop(g);
        sched::wake_all(addr(lock));
        let t = sched::block(addr(self), timed, Op::Wait);
        (lock.relock(), t)
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if sched::active() {
            return self.sim_wait(g, false).0;
        }
        let lock = g.lock;
        let r = self.inner.wait(g.g.take().unwrap());
        lock.wrap(r)
    }
    pub fn wait_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while cond(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if sched::active() {
            let (r, t) = self.sim_wait(g, true);
            return match r {
                Ok(g) => Ok((g, WaitTimeoutResult(t))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
            };
        }
        let lock = g.lock;
        match self.inner.wait_timeout(g.g.take().unwrap(), d) {
            Ok((g, t)) => Ok((lock.guard(g), WaitTimeoutResult(t.timed_out()))),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((lock.guard(g), WaitTimeoutResult(t.timed_out()))))
            }
        }
    }
    pub fn wait_timeout_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
        F: FnMut(&mut T) -> bool,
    {
        let start = Instant::now();
        loop {
            if !cond(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let left = match d.checked_sub(start.elapsed()) {
                Some(x) => x,
                None => return Ok((g, WaitTimeoutResult(true))),
            };
            let (h, t) = self.wait_timeout(g, left)?;
            g = h;
            if t.timed_out() {
                let more = cond(&mut *g);
                return Ok((g, WaitTimeoutResult(more)));
            }
        }
    }
    pub fn notify_one(&self) {
        if sched::active() {
            sched::point(Op::Notify);
            sched::wake_one(addr(self));
        }
        self.inner.notify_one()
    }
    pub fn notify_all(&self) {
        if sched::active() {
            sched::point(Op::Notify);
            sched::wake_all(addr(self));
        }
        self.inner.notify_all()
    }
}

// ---------------------------------------------------------------- Barrier

pub struct Barrier {
    m: Mutex<(usize, usize)>,
    cv: Condvar,
    n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}

// ---------------------------------------------------------------- mpsc

pub mod mpsc {
    use super::{addr, sched, Op};
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use std::collections::VecDeque;
    use std::fmt;
    use std::sync::mpsc as real;
    use std::sync::{Arc, Mutex};
    use std::time::{Duration, Instant};

    struct State<T> {
        q: VecDeque<T>,
        cap: Option<usize>,
        senders: usize,
        receiver: bool,
        receiving: bool,
        put: u64,
        taken: u64,
    }
    pub struct Chan<T> {
        st: Mutex<State<T>>,
    }
    impl<T> Chan<T> {
        fn new(cap: Option<usize>) -> Arc<Self> {
            Arc::new(Chan {
                st: Mutex::new(State {
                    q: VecDeque::new(),
                    cap,
                    senders: 1,
                    receiver: true,
                    receiving: false,
                    put: 0,
                    taken: 0,
                }),
            })
        }
        fn send(&self, t: T) -> Result<(), SendError<T>> {
            sched::point(Op::Send);
            let seq;
            loop {
                let mut s = self.st.lock().unwrap();
                if !s.receiver {
                    return Err(SendError(t));
                }
                let full = match s.cap {
                    None => false,
                    Some(c) => s.q.len() >= c.max(1),
                };
                if !full {
                    s.q.push_back(t);
                    seq = s.put;
                    s.put += 1;
                    break;
                }
                drop(s);
                sched::block(addr(self), false, Op::Send);
            }
            sched::wake_all(addr(self));
            if self.st.lock().unwrap().cap == Some(0) {
                loop {
                    let mut s = self.st.lock().unwrap();
                    if s.taken > seq {
                        break;
                    }
                    if !s.receiver {
                        let t = s.q.pop_front().unwrap();
                        return Err(SendError(t));
                    }
                    drop(s);
                    sched::block(addr(self), false, Op::Send);
                }
            }
            Ok(())
        }
        fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            sched::point(Op::Send);
            let mut s = self.st.lock().unwrap();
            if !s.receiver {
                return Err(TrySendError::Disconnected(t));
            }
            let full = match s.cap {
                None => false,
                Some(0) => !s.receiving || !s.q.is_empty(),
                Some(c) => s.q.len() >= c,
            };
            if full {
                return Err(TrySendError::Full(t));
            }
            s.q.push_back(t);
            s.put += 1;
            drop(s);
            sched::wake_all(addr(self));
            Ok(())
        }
        fn try_recv(&self) -> Result<T, TryRecvError> {
            sched::point(Op::Recv);
            self.take()
        }
        fn take(&self) -> Result<T, TryRecvError> {
            let mut s = self.st.lock().unwrap();
            if let Some(t) = s.q.pop_front() {
                s.taken += 1;
                drop(s);
                sched::wake_all(addr(self));
                return Ok(t);
            }
            if s.senders == 0 {
                Err(TryRecvError::Disconnected)
            } else {
                Err(TryRecvError::Empty)
            }
        }
        fn recv(&self, timed: bool) -> Result<T, RecvTimeoutError> {
            sched::point(Op::Recv);
            loop {
                match self.take() {
                    Ok(t) => return Ok(t),
                    Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                    Err(TryRecvError::Empty) => {
                        self.st.lock().unwrap().receiving = true;
                        let t = sched::block(addr(self), timed, Op::Recv);
                        self.st.lock().unwrap().receiving = false;
                        if t {
                            return match self.take() {
                                Ok(t) => Ok(t),
                                Err(TryRecvError::Disconnected) => {
                                    Err(RecvTimeoutError::Disconnected)
                                }
                                Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
                            };
                        }
                    }
                }
            }
        }
        fn add_sender(&self) {
            self.st.lock().unwrap().senders += 1;
        }
        fn drop_sender(&self) {
            self.st.lock().unwrap().senders -= 1;
            sched::wake_all(addr(self));
            sched::point(Op::Send);
        }
        fn drop_receiver(&self) {
            let old = {
                let mut s = self.st.lock().unwrap();
                s.receiver = false;
                if s.cap == Some(0) { VecDeque::new() } else { std::mem::take(&mut s.q) }
            };
            drop(old);
            sched::wake_all(addr(self));
            sched::point(Op::Recv);
        }
    }

    macro_rules! sender {
        ($name:ident, $real:ident) => {
            pub enum $name<T> {
                Real(real::$real<T>),
                Sim(Arc<Chan<T>>),
            }
            impl<T> $name<T> {
                pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                    match self {
                        Self::Real(s) => s.send(t),
                        Self::Sim(c) => c.send(t),
                    }
                }
            }
            impl<T> Clone for $name<T> {
                fn clone(&self) -> Self {
                    match self {
                        Self::Real(s) => Self::Real(s.clone()),
                        Self::Sim(c) => {
                            c.add_sender();
                            Self::Sim(c.clone())
                        }
                    }
                }
            }
            impl<T> Drop for $name<T> {
                fn drop(&mut self) {
                    if let Self::Sim(c) = self {
                        c.drop_sender();
                    }
                }
            }
            impl<T> fmt::Debug for $name<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(concat!(stringify!($name), " { .. }"))
                }
            }
        };
    }
    sender!(Sender, Sender);
    sender!(SyncSender, SyncSender);
    impl<T> SyncSender<T> {
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            match self {
                Self::Real(s) => s.try_send(t),
                Self::Sim(c) => c.try_send(t),
            }
        }
    }

    pub enum Receiver<T> {
        Real(real::Receiver<T>),
        Sim(Arc<Chan<T>>, std::marker::PhantomData<std::cell::Cell<()>>),
    }
    unsafe impl<T: Send> Send for Receiver<T> {}
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            match self {
                Self::Real(r) => r.recv(),
                Self::Sim(c, _) => c.recv(false).map_err(|_| RecvError),
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            match self {
                Self::Real(r) => r.try_recv(),
                Self::Sim(c, _) => c.try_recv(),
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            match self {
                Self::Real(r) => r.recv_timeout(d),
                Self::Sim(c, _) => c.recv(true),
            }
        }
        pub fn recv_deadline(&self, d: Instant) -> Result<T, RecvTimeoutError> {
            self.recv_timeout(d.saturating_duration_since(Instant::now()))
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { rx: self }
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter { rx: self }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            if let Self::Sim(c, _) = self {
                c.drop_receiver();
            }
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Receiver { .. }")
        }
    }
    #[derive(Debug)]
    pub struct Iter<'a, T: 'a> {
        rx: &'a Receiver<T>,
    }
    #[derive(Debug)]
    pub struct TryIter<'a, T: 'a> {
        rx: &'a Receiver<T>,
    }
    #[derive(Debug)]
    pub struct IntoIter<T> {
        rx: Receiver<T>,
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.rx.recv().ok()
        }
    }
    impl<'a, T> Iterator for TryIter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.rx.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.rx.recv().ok()
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter { rx: self }
        }
    }

    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        if sched::active() {
            let c = Chan::new(None);
            (Sender::Sim(c.clone()), Receiver::Sim(c, std::marker::PhantomData))
        } else {
            let (a, b) = real::channel();
            (Sender::Real(a), Receiver::Real(b))
        }
    }
    /// WSCHED_CHAN_CAP stands in for capacities that are too large to ever fill up in a test.
    pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
        let cap = match std::env::var("WSCHED_CHAN_CAP").ok().and_then(|x| x.parse().ok()) {
            Some(c) if cap >= 128 => c,
            _ => cap,
        };
        if sched::active() {
            let c = Chan::new(Some(cap));
            (SyncSender::Sim(c.clone()), Receiver::Sim(c, std::marker::PhantomData))
        } else {
            let (a, b) = real::sync_channel(cap);
            (SyncSender::Real(a), Receiver::Real(b))
        }
    }
}

// ---------------------------------------------------------------- atomics

pub mod atomic {
    use super::{sched, Op};
    pub use std::sync::atomic::{compiler_fence, fence, AtomicPtr, Ordering};
    use std::fmt;
    use std::sync::atomic as real;

    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[repr(transparent)]
            #[derive(Default)]
            pub struct $name(real::$name);
            impl $name {
                #[inline]
                pub const fn new(v: $t) -> Self {
                    Self(real::$name::new(v))
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn as_ptr(&self) -> *mut $t {
                    self.0.as_ptr()
                }
                pub fn load(&self, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    sched::point(Op::Atomic);
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.swap(v, o)
                }
                #[allow(deprecated)]
                pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.compare_and_swap(c, n, o)
                }
                pub fn compare_exchange(
                    &self, c: $t, n: $t, s: Ordering, f: Ordering,
                ) -> Result<$t, $t> {
                    sched::point(Op::Atomic);
                    self.0.compare_exchange(c, n, s, f)
                }
                pub fn compare_exchange_weak(
                    &self, c: $t, n: $t, s: Ordering, f: Ordering,
                ) -> Result<$t, $t> {
                    sched::point(Op::Atomic);
                    self.0.compare_exchange_weak(c, n, s, f)
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.fetch_and(v, o)
                }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.fetch_nand(v, o)
                }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.fetch_or(v, o)
                }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.fetch_xor(v, o)
                }
                pub fn fetch_update<F>(
                    &self, set: Ordering, fetch: Ordering, mut f: F,
                ) -> Result<$t, $t>
                where
                    F: FnMut($t) -> Option<$t>,
                {
                    let mut prev = self.load(fetch);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, set, fetch) {
                            x @ Ok(_) => return x,
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl fmt::Debug for $name {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl serde::Serialize for $name {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    self.load(Ordering::Relaxed).serialize(s)
                }
            }
            impl<'de> serde::Deserialize<'de> for $name {
                fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    <$t>::deserialize(d).map(Self::new)
                }
            }
            impl atomic_traits::Atomic for $name {
                type Type = $t;
                fn new(v: $t) -> Self { Self::new(v) }
                fn get_mut(&mut self) -> &mut $t { Self::get_mut(self) }
                fn into_inner(self) -> $t { Self::into_inner(self) }
                fn load(&self, o: Ordering) -> $t { Self::load(self, o) }
                fn store(&self, v: $t, o: Ordering) { Self::store(self, v, o) }
                fn swap(&self, v: $t, o: Ordering) -> $t { Self::swap(self, v, o) }
                fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                    Self::compare_and_swap(self, c, n, o)
                }
                fn compare_exchange(
                    &self, c: $t, n: $t, s: Ordering, f: Ordering,
                ) -> Result<$t, $t> {
                    Self::compare_exchange(self, c, n, s, f)
                }
                fn compare_exchange_weak(
                    &self, c: $t, n: $t, s: Ordering, f: Ordering,
                ) -> Result<$t, $t> {
                    Self::compare_exchange_weak(self, c, n, s, f)
                }
            }
            impl atomic_traits::Bitwise for $name {}
            impl atomic_traits::fetch::And for $name {
                type Type = $t;
                fn fetch_and(&self, v: $t, o: Ordering) -> $t { Self::fetch_and(self, v, o) }
            }
            impl atomic_traits::fetch::Nand for $name {
                type Type = $t;
                fn fetch_nand(&self, v: $t, o: Ordering) -> $t { Self::fetch_nand(self, v, o) }
            }
            impl atomic_traits::fetch::Or for $name {
                type Type = $t;
                fn fetch_or(&self, v: $t, o: Ordering) -> $t { Self::fetch_or(self, v, o) }
            }
            impl atomic_traits::fetch::Xor for $name {
                type Type = $t;
                fn fetch_xor(&self, v: $t, o: Ordering) -> $t { Self::fetch_xor(self, v, o) }
            }
        };
    }
    macro_rules! int {
        ($name:ident, $t:ty) => {
            common!($name, $t);
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.fetch_add(v, o)
                }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.fetch_sub(v, o)
                }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.fetch_max(v, o)
                }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                    sched::point(Op::Atomic);
                    self.0.fetch_min(v, o)
                }
            }
            impl atomic_traits::NumOps for $name {}
            impl atomic_traits::fetch::Add for $name {
                type Type = $t;
                fn fetch_add(&self, v: $t, o: Ordering) -> $t { Self::fetch_add(self, v, o) }
            }
            impl atomic_traits::fetch::Sub for $name {
                type Type = $t;
                fn fetch_sub(&self, v: $t, o: Ordering) -> $t { Self::fetch_sub(self, v, o) }
            }
            impl atomic_traits::fetch::Update for $name {
                type Type = $t;
                fn fetch_update<F>(&self, a: Ordering, b: Ordering, f: F) -> Result<$t, $t>
                where
                    F: FnMut($t) -> Option<$t>,
                {
                    Self::fetch_update(self, a, b, f)
                }
            }
            impl atomic_traits::fetch::Max for $name {
                type Type = $t;
                fn fetch_max(&self, v: $t, o: Ordering) -> $t { Self::fetch_max(self, v, o) }
            }
            impl atomic_traits::fetch::Min for $name {
                type Type = $t;
                fn fetch_min(&self, v: $t, o: Ordering) -> $t { Self::fetch_min(self, v, o) }
            }
        };
    }
    common!(AtomicBool, bool);
    impl AtomicBool {
        pub fn fetch_not(&self, o: Ordering) -> bool {
            sched::point(Op::Atomic);
            self.0.fetch_xor(true, o)
        }
    }
    int!(AtomicI8, i8);
    int!(AtomicI16, i16);
    int!(AtomicI32, i32);
    int!(AtomicI64, i64);
    int!(AtomicIsize, isize);
    int!(AtomicU8, u8);
    int!(AtomicU16, u16);
    int!(AtomicU32, u32);
    int!(AtomicU64, u64);
    int!(AtomicUsize, usize);
}
