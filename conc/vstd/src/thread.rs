//! std::thread whose threads join the controlled run of the thread that starts them.
pub use ::std::thread::*;

use crate::weave::{self, Token};
use ::std::io;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::Mutex;

struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        weave::leave()
    }
}
fn ticket() -> Option<(Token, usize)> {
    weave::controlled().then(|| (weave::token(), weave::thread_new()))
}
fn wrapped<T>(k: Option<(Token, usize)>, f: impl FnOnce() -> T) -> T {
    match k {
        None => f(),
        Some((token, t)) => {
            token.enter(t);
            let _leave = Leave;
            f()
        }
    }
}

pub struct JoinHandle<T> {
    h: ::std::thread::JoinHandle<T>,
    t: Option<usize>,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        weave::join(self.t.into_iter().collect());
        self.h.join()
    }
    pub fn thread(&self) -> &Thread {
        self.h.thread()
    }
    pub fn is_finished(&self) -> bool {
        weave::controlled().then(weave::point);
        self.h.is_finished()
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let k = ticket();
    let h = ::std::thread::spawn(move || wrapped(k, f));
    if k.is_some() {
        weave::point();
    }
    JoinHandle { h, t: k.map(|k| k.1) }
}

#[derive(Debug)]
pub struct Builder(::std::thread::Builder);
impl Default for Builder {
    fn default() -> Self {
        Self::new()
    }
}
impl Builder {
    pub fn new() -> Self {
        Builder(::std::thread::Builder::new())
    }
    pub fn name(self, n: String) -> Self {
        Builder(self.0.name(n))
    }
    pub fn stack_size(self, n: usize) -> Self {
        Builder(self.0.stack_size(n))
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let k = ticket();
        let h = self.0.spawn(move || wrapped(k, f))?;
        if k.is_some() {
            weave::point();
        }
        Ok(JoinHandle { h, t: k.map(|k| k.1) })
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    s: &'scope ::std::thread::Scope<'scope, 'env>,
    kids: Mutex<Vec<usize>>,
}
pub struct ScopedJoinHandle<'scope, T> {
    h: ::std::thread::ScopedJoinHandle<'scope, T>,
    t: Option<usize>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        weave::join(self.t.into_iter().collect());
        self.h.join()
    }
    pub fn thread(&self) -> &Thread {
        self.h.thread()
    }
    pub fn is_finished(&self) -> bool {
        weave::controlled().then(weave::point);
        self.h.is_finished()
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    ::std::thread::scope(|s| {
        let w: &Scope = Box::leak(Box::new(Scope { s, kids: Mutex::new(vec![]) }));
        let r = catch_unwind(AssertUnwindSafe(|| f(w)));
        if weave::controlled() {
            loop {
                let kids = ::std::mem::take(&mut *w.kids.lock().unwrap());
                if kids.is_empty() {
                    break;
                }
                weave::join(kids);
            }
        }
        r.unwrap_or_else(|e| resume_unwind(e))
    })
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let k = ticket();
        let h = self.s.spawn(move || wrapped(k, f));
        if let Some(k) = k {
            self.kids.lock().unwrap().push(k.1);
            weave::point();
        }
        ScopedJoinHandle { h, t: k.map(|k| k.1) }
    }
}

pub fn yield_now() {
    if weave::controlled() {
        weave::point()
    } else {
        ::std::thread::yield_now()
    }
}
pub fn sleep(d: ::std::time::Duration) {
    if weave::controlled() {
        weave::point()
    } else {
        ::std::thread::sleep(d)
    }
}
