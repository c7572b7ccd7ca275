pub use std::thread::*;
use crate::sched::{self, Op};
use std::io;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub struct JoinHandle<T> {
    real: std::thread::JoinHandle<T>,
    done: Arc<AtomicBool>,
    obj: usize,
    controlled: bool,
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        if self.controlled && sched::active() {
            sched::point(Op::Join);
            while !self.done.load(Ordering::SeqCst) {
                sched::block(self.obj, false, Op::Join);
            }
        }
        self.real.join()
    }
    pub fn thread(&self) -> &Thread {
        self.real.thread()
    }
    pub fn is_finished(&self) -> bool {
        sched::point(Op::Join);
        if self.controlled { self.done.load(Ordering::SeqCst) } else { self.real.is_finished() }
    }
}

impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}

#[derive(Debug)]
pub struct Builder {
    b: std::thread::Builder,
    name: String,
}

impl Builder {
    pub fn new() -> Self {
        Builder { b: std::thread::Builder::new(), name: String::new() }
    }
    pub fn name(self, n: String) -> Self {
        Builder { b: self.b.name(n.clone()), name: n }
    }
    pub fn stack_size(self, n: usize) -> Self {
        Builder { b: self.b.stack_size(n), name: self.name }
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let done = Arc::new(AtomicBool::new(false));
        let obj = sched::new_obj();
        let tid = sched::register(&self.name);
        let d = done.clone();
        let real = self.b.spawn(move || {
            let _end = tid.map(|t| {
                sched::enter(t);
                End(t, d, obj)
            });
            f()
        })?;
        if tid.is_some() {
            sched::point(Op::Spawn);
        }
        Ok(JoinHandle { real, done, obj, controlled: tid.is_some() })
    }
}

struct End(usize, Arc<AtomicBool>, usize);
impl Drop for End {
    fn drop(&mut self) {
        self.1.store(true, Ordering::SeqCst);
        sched::leave(self.0, self.2);
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub struct Scope<'scope, 'env: 'scope> {
    real: &'scope std::thread::Scope<'scope, 'env>,
    pending: Arc<std::sync::Mutex<Vec<(Arc<AtomicBool>, usize)>>>,
}
pub struct ScopedJoinHandle<'scope, T> {
    real: std::thread::ScopedJoinHandle<'scope, T>,
    done: Arc<AtomicBool>,
    obj: usize,
    controlled: bool,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        if self.controlled && sched::active() {
            sched::point(Op::Join);
            while !self.done.load(Ordering::SeqCst) {
                sched::block(self.obj, false, Op::Join);
            }
        }
        self.real.join()
    }
    pub fn thread(&self) -> &Thread {
        self.real.thread()
    }
    pub fn is_finished(&self) -> bool {
        sched::point(Op::Join);
        if self.controlled { self.done.load(Ordering::SeqCst) } else { self.real.is_finished() }
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let done = Arc::new(AtomicBool::new(false));
        let obj = sched::new_obj();
        let tid = sched::register("scoped");
        let d = done.clone();
        if tid.is_some() {
            self.pending.lock().unwrap().push((done.clone(), obj));
        }
        let real = self.real.spawn(move || {
            let _end = tid.map(|t| {
                sched::enter(t);
                End(t, d, obj)
            });
            f()
        });
        if tid.is_some() {
            sched::point(Op::Spawn);
        }
        ScopedJoinHandle { real, done, obj, controlled: tid.is_some() }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    std::thread::scope(|s| {
        let pending = Arc::new(std::sync::Mutex::new(Vec::new()));
        // the scope object has to live as long as 'scope; leak it (test process)
        let sc: &Scope = unsafe {
            &*Box::into_raw(Box::new(Scope { real: std::mem::transmute(s), pending: pending.clone() }))
        };
        let r = f(sc);
        if sched::active() {
            loop {
                let next = pending.lock().unwrap().pop();
                let Some((done, obj)) = next else { break };
                while !done.load(Ordering::SeqCst) {
                    sched::block(obj, false, Op::Join);
                }
            }
        }
        r
    })
}

pub fn sleep(d: Duration) {
    if sched::active() {
        sched::block(0, true, Op::Sleep);
    } else {
        std::thread::sleep(d)
    }
}
pub fn yield_now() {
    if sched::active() {
        sched::point(Op::Any);
    } else {
        std::thread::yield_now()
    }
}
pub fn park() {
    if sched::active() {
        // tokens are not modelled: a park is a yield (spurious wakeups are allowed)
        sched::point(Op::Wait);
    } else {
        std::thread::park()
    }
}
pub fn park_timeout(d: Duration) {
    if sched::active() {
        sched::point(Op::Wait);
    } else {
        std::thread::park_timeout(d)
    }
}
