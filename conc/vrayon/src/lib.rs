//! Stands in for rayon: the spawned tasks of a controlled run are queued, and the scheduler decides which worker
//! runs which task when. Outside a controlled run everything is run in order on the calling thread.
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use vstd::weave;

pub struct Scope<'scope> {
    /// the controlled run's scope
    id: Option<usize>,
    inline: Mutex<VecDeque<Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>>>,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
struct Ptr<'scope>(*const Scope<'scope>);
unsafe impl Send for Ptr<'_> {}
impl<'scope> Ptr<'scope> {
    fn get(&self) -> &Scope<'scope> {
        unsafe { &*self.0 }
    }
}

impl<'scope> Scope<'scope> {
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        match self.id {
            Some(id) => {
                let me = Ptr(self as *const _);
                let b: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || body(me.get()));
                // the scope is only left after every task has run
                let b: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(b) };
                weave::scope_spawn(id, b)
            }
            None => self.inline.lock().unwrap().push_back(Box::new(body)),
        }
    }
    pub fn spawn_broadcast<BODY>(&self, _: BODY) {
        panic!("spawn_broadcast is not modelled");
    }
}

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope {
        id: weave::controlled().then(weave::scope_new),
        inline: Mutex::new(VecDeque::new()),
        marker: PhantomData,
    };
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    let mut failed: Option<Box<dyn Any + Send>> = None;
    match s.id {
        Some(id) => {
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| weave::scope_wait(id))) {
                failed = Some(e)
            }
        }
        None => loop {
            let Some(t) = s.inline.lock().unwrap().pop_front() else { break };
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| t(&s))) {
                failed.get_or_insert(e);
            }
        },
    }
    match r {
        Err(e) => resume_unwind(e),
        Ok(r) => {
            if let Some(e) = failed {
                resume_unwind(e)
            }
            r
        }
    }
}

/// runs `op` on a worker
fn on_worker<R: Send>(op: impl FnOnce() -> R + Send) -> R {
    if !weave::controlled() || weave::is_worker() {
        return op();
    }
    let slot = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    in_place_scope(move |s| {
        let job = move |_: &Scope<'_>| {
            let r = op();
            *s2.lock().unwrap() = Some(r);
        };
        s.spawn(job)
    });
    let r = slot.lock().unwrap().take();
    r.unwrap()
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    on_worker(move || in_place_scope(op))
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    on_worker(move || {
        let slot = Mutex::new(None);
        let sr = &slot;
        let ra = in_place_scope(move |s| {
            s.spawn(move |_| {
                let r = b();
                *sr.lock().unwrap() = Some(r);
            });
            a()
        });
        (ra, slot.into_inner().unwrap().unwrap())
    })
}

thread_local!(static DETACHED: RefCell<Option<usize>> = const { RefCell::new(None) });
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    if weave::controlled() {
        let id = weave::scope_new();
        weave::scope_spawn(id, Box::new(f))
    } else {
        f()
    }
}

pub fn current_num_threads() -> usize {
    if weave::controlled() {
        weave::workers()
    } else {
        1
    }
}
pub fn current_thread_index() -> Option<usize> {
    if weave::controlled() && weave::is_worker() {
        weave::me()
    } else {
        None
    }
}
pub fn yield_now() {}

mod par;
pub mod iter {
    pub use crate::par::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge,
        ParallelIterator,
    };
}
pub mod slice {
    pub use crate::par::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
    pub use crate::iter::*;
    pub use crate::slice::*;
}

/// pools of the code's own are not told apart from the global one
pub struct ThreadPool;
#[derive(Default)]
pub struct ThreadPoolBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl ThreadPool {
    pub fn install<R: Send, OP: FnOnce() -> R + Send>(&self, op: OP) -> R {
        on_worker(op)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}
