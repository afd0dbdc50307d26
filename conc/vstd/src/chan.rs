//! One channel for mpsc and crossbeam: any number of senders and receivers, optionally bounded.
use crate::weave;
use ::std::collections::VecDeque;
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};
use ::std::time::{Duration, Instant};

struct State<T> {
    q: VecDeque<T>,
    senders: usize,
    receivers: usize,
}
struct Shared<T> {
    id: usize,
    cap: Option<usize>,
    st: Mutex<State<T>>,
    cv: Condvar,
}
impl<T> Shared<T> {
    fn st(&self) -> MutexGuard<'_, State<T>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
}

pub struct Sender<T>(Arc<Shared<T>>);
pub struct Receiver<T>(Arc<Shared<T>>);
pub enum Failed {
    Empty,
    Closed,
}

pub fn channel<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let s = Arc::new(Shared {
        id: weave::chan_new(cap),
        cap,
        st: Mutex::new(State { q: VecDeque::new(), senders: 1, receivers: 1 }),
        cv: Condvar::new(),
    });
    (Sender(s.clone()), Receiver(s))
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.st().senders += 1;
        weave::chan_sender(self.0.id, true);
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.st().senders -= 1;
        weave::chan_sender(self.0.id, false);
        self.0.cv.notify_all();
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.st().receivers += 1;
        weave::chan_receiver(self.0.id, true);
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.st().receivers -= 1;
        weave::chan_receiver(self.0.id, false);
        self.0.cv.notify_all();
    }
}
impl<T> Sender<T> {
    pub fn put(&self, v: T, wait: bool) -> Result<(), (T, Failed)> {
        if weave::controlled() {
            if wait {
                weave::chan_room(self.0.id);
            } else {
                weave::point();
            }
        }
        let mut g = self.0.st();
        loop {
            if g.receivers == 0 {
                return Err((v, Failed::Closed));
            }
            if self.0.cap.is_none_or(|c| g.q.len() < c.max(1)) {
                break;
            }
            if !wait {
                return Err((v, Failed::Empty));
            }
            g = self.0.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.q.push_back(v);
        drop(g);
        weave::chan_sent(self.0.id);
        self.0.cv.notify_all();
        Ok(())
    }
    pub fn len(&self) -> usize {
        self.0.st().q.len()
    }
    pub fn same(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Receiver<T> {
    pub fn take(&self, wait: bool, limit: Option<Duration>) -> Result<T, Failed> {
        if weave::controlled() {
            if wait && limit.is_none() {
                weave::chan_wait(self.0.id);
            } else {
                // a timed wait may give up at any time
                weave::point();
            }
        }
        let until = limit.map(|d| Instant::now() + d);
        let mut g = self.0.st();
        loop {
            if let Some(v) = g.q.pop_front() {
                drop(g);
                weave::chan_got(self.0.id);
                self.0.cv.notify_all();
                return Ok(v);
            }
            if g.senders == 0 {
                return Err(Failed::Closed);
            }
            if !wait || (weave::controlled() && limit.is_some()) {
                return Err(Failed::Empty);
            }
            match until {
                None => g = self.0.cv.wait(g).unwrap_or_else(|e| e.into_inner()),
                Some(u) => {
                    let now = Instant::now();
                    if now >= u {
                        return Err(Failed::Empty);
                    }
                    g = self.0.cv.wait_timeout(g, u - now).unwrap_or_else(|e| e.into_inner()).0;
                }
            }
        }
    }
    pub fn len(&self) -> usize {
        self.0.st().q.len()
    }
}
