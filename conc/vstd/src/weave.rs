//! The scheduler: virtual threads are OS threads of which exactly one runs at a time. Every choice of who runs
//! next, and which queued task a pool worker takes, is a recorded decision, so a run can be repeated and varied.
use ::std::any::Any;
use ::std::cell::Cell;
use ::std::sync::atomic::AtomicUsize;
use ::std::collections::HashMap;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::{Arc, Condvar, Mutex};

/// picks one of `arity` ways to go on at decision `index`
pub type Choose = Arc<dyn Fn(usize, usize) -> usize + Send + Sync>;
pub type Task = Box<dyn FnOnce() + Send>;

#[derive(Clone, Debug, PartialEq)]
pub enum Wait {
    Ready,
    Lock { id: usize, write: bool },
    Recv { chan: usize },
    Room { chan: usize },
    Scope { id: usize },
    /// a pool worker that waits for a scope, and runs queued tasks meanwhile
    Helping { id: usize },
    Idle,
    Threads(Vec<usize>),
    Notified { cond: usize },
    Done,
}

/// What happened, for the solver: (task or thread, event)
#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Spawn { task: usize, scope: usize },
    Start { task: usize },
    End { task: usize },
    ScopeWait { scope: usize },
    Send { chan: usize },
    Got { chan: usize },
    Closed { chan: usize },
    NewSender { chan: usize },
    DropSender { chan: usize },
    Acquire { lock: usize, write: bool },
    Release { lock: usize, write: bool },
}

struct Th {
    wait: Wait,
    worker: bool,
    /// tasks on this thread's stack, innermost last (0 is the main body)
    stack: Vec<usize>,
}

#[derive(Default)]
struct Chan {
    len: usize,
    senders: usize,
    receivers: usize,
    cap: Option<usize>,
}
#[derive(Default)]
struct LockState {
    readers: usize,
    writer: bool,
}

struct Run {
    threads: Vec<Th>,
    current: usize,
    queue: Vec<(usize, usize, Task)>, // task id, scope, body
    scopes: HashMap<usize, (usize, Option<Box<dyn Any + Send>>)>,
    chans: HashMap<usize, Chan>,
    locks: HashMap<usize, LockState>,
    notified: HashMap<usize, usize>,
    choose: Choose,
    decisions: usize,
    deviations: usize,
    max_deviations: usize,
    eager: bool,
    bounded: bool,
    stuck: Option<String>,
    pick: HashMap<usize, usize>, // thread -> task picked for it
    next_task: usize,
    next_scope: usize,
    steps: usize,
    log: Option<Vec<(usize, Event)>>,
    over: bool,
}

struct World {
    run: Mutex<Option<Run>>,
    /// one per thread, the first for whoever waits for the end of the run
    wake: [Condvar; 17],
}
impl World {
    fn cond(&self, t: usize) -> &Condvar {
        &self.wake[1 + t % 16]
    }
    /// wakes whoever is next
    fn kick(&self, r: Option<&Run>) {
        match r {
            Some(r) if r.stuck.is_none() && !r.over => self.cond(r.current).notify_all(),
            _ => self.wake.iter().for_each(|c| c.notify_all()),
        }
    }
}

thread_local!(static ME: Cell<Option<(&'static World, usize)>> = const { Cell::new(None) });

const MAX_STEPS: usize = 100_000;

fn guard(w: &'static World) -> ::std::sync::MutexGuard<'static, Option<Run>> {
    w.run.lock().unwrap_or_else(|e| e.into_inner())
}
fn world() -> &'static World {
    ME.with(|m| m.get()).expect("weave: not in a controlled run").0
}
/// the run this thread belongs to; a thread of a run that is over never goes on
fn lock() -> ::std::sync::MutexGuard<'static, Option<Run>> {
    let g = guard(world());
    if g.as_ref().is_none_or(|r| r.stuck.is_some() || r.over) {
        drop(g);
        hang();
    }
    g
}

pub fn me() -> Option<usize> {
    ME.with(|m| m.get()).map(|m| m.1)
}
pub fn controlled() -> bool {
    me().is_some()
}

#[derive(Clone, PartialEq)]
enum Act {
    Go(usize),
    Take(usize, usize), // worker, position in the queue
}

impl Run {
    fn lock_free(&self, id: usize, write: bool) -> bool {
        match self.locks.get(&id) {
            None => true,
            // as std's lock on Linux does it, readers wait behind waiting writers
            Some(l) => {
                !l.writer
                    && (if write { l.readers == 0 } else { !self.threads.iter().any(|t| t.wait == Wait::Lock { id, write: true }) })
            }
        }
    }
    fn ready(&self, t: usize) -> bool {
        match &self.threads[t].wait {
            Wait::Ready => true,
            Wait::Lock { id, write } => self.lock_free(*id, *write),
            Wait::Recv { chan } => {
                let c = &self.chans[chan];
                c.len > 0 || c.senders == 0
            }
            Wait::Room { chan } => {
                let c = &self.chans[chan];
                c.receivers == 0 || c.cap.is_none_or(|n| c.len < n.max(1))
            }
            Wait::Scope { id } | Wait::Helping { id } => self.scopes[id].0 == 0,
            Wait::Threads(v) => v.iter().all(|&k| self.threads[k].wait == Wait::Done),
            Wait::Notified { cond } => self.notified.get(cond).copied().unwrap_or(0) > 0,
            Wait::Idle | Wait::Done => false,
        }
    }
    /// what can happen next; continuing the current thread comes first
    fn enabled(&self) -> Vec<Act> {
        let mut acts = vec![];
        let n = self.threads.len();
        for k in 0..n {
            let t = (self.current + k) % n;
            if self.ready(t) {
                acts.push(Act::Go(t));
            }
        }
        // idle workers are interchangeable
        let mut idle_seen = false;
        for t in 0..n {
            let takes = match self.threads[t].wait {
                Wait::Idle if !idle_seen => {
                    idle_seen = true;
                    true
                }
                Wait::Helping { .. } => !self.ready(t),
                _ => false,
            };
            if takes {
                for q in 0..self.queue.len() {
                    acts.push(Act::Take(t, q));
                }
            }
        }
        if self.eager {
            let rank = |a: &Act| match a {
                Act::Go(t) if *t == self.current => 0,
                Act::Take(..) => 1,
                Act::Go(_) => 2,
            };
            acts.sort_by_key(rank);
        }
        acts
    }
    fn decide(&mut self) -> bool {
        self.steps += 1;
        if self.steps > MAX_STEPS {
            self.stuck = Some(format!("no end after {MAX_STEPS} steps"));
            return false;
        }
        let acts = self.enabled();
        if acts.is_empty() {
            if self.threads[0].wait == Wait::Done {
                self.over = true;
                return true;
            }
            let text: Vec<String> = self
                .threads
                .iter()
                .enumerate()
                .filter(|(_, t)| t.wait != Wait::Done)
                .map(|(k, t)| format!("thread {k}{} {:?}", if t.worker { " (worker)" } else { "" }, t.wait))
                .collect();
            self.stuck = Some(format!("nothing can run: {}; {} tasks queued", text.join(", "), self.queue.len()));
            return false;
        }
        let k = if acts.len() == 1 {
            0
        } else {
            if self.deviations >= self.max_deviations {
                self.bounded = true;
                0
            } else {
                let at = self.decisions;
                self.decisions += 1;
                let k = (self.choose)(at, acts.len()).min(acts.len() - 1);
                if k > 0 {
                    self.deviations += 1
                }
                k
            }
        };
        match acts[k].clone() {
            Act::Go(t) => self.current = t,
            Act::Take(t, q) => {
                self.current = t;
                self.pick.insert(t, q);
            }
        }
        true
    }
    fn note(&mut self, e: Event) {
        let m = me().unwrap_or(0);
        let t = self.threads.get(m).and_then(|t| t.stack.last().copied()).unwrap_or(0);
        if let Some(l) = self.log.as_mut() {
            l.push((t, e));
        }
    }
}

/// Gives up the processor until the scheduler picks this thread again in state `w`. False if the run is over.
fn yield_idle(w: Wait) -> bool {
    let Some((world, m)) = ME.with(|m| m.get()) else { return true };
    let mut g = guard(world);
    let Some(r) = g.as_mut() else { return false };
    if r.stuck.is_some() || r.over {
        return false;
    }
    r.threads[m].wait = w;
    let ok = r.decide();
    if r.current != m || !ok || r.over {
        world.kick(Some(r));
    }
    if !ok {
        return false;
    }
    match wait_turn(world, g, m) {
        Some(mut g) => {
            g.as_mut().unwrap().threads[m].wait = Wait::Ready;
            true
        }
        None => false,
    }
}
fn yield_as(w: Wait) {
    if !yield_idle(w) {
        hang()
    }
}
fn wait_turn(
    world: &'static World,
    mut g: ::std::sync::MutexGuard<'static, Option<Run>>,
    m: usize,
) -> Option<::std::sync::MutexGuard<'static, Option<Run>>> {
    loop {
        match g.as_ref() {
            Some(r) if r.stuck.is_none() && !r.over => {
                if r.current == m {
                    return Some(g);
                }
            }
            _ => return None,
        }
        g = world.cond(m).wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
/// A thread of an abandoned run: it never runs again.
fn hang() -> ! {
    loop {
        ::std::thread::park();
    }
}

pub fn point() {
    yield_as(Wait::Ready)
}
pub fn note(e: Event) {
    if !controlled() {
        return;
    }
    if let Some(r) = lock().as_mut() {
        r.note(e)
    }
}
/// numbers objects (locks, channels)
pub fn fresh_id() -> usize {
    static GLOBAL: AtomicUsize = AtomicUsize::new(1);
    GLOBAL.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst)
}

// ------------------------------------------------------------------ locks
pub fn acquire(id: usize, write: bool) {
    if !controlled() {
        return;
    }
    point();
    loop {
        if take(id, write) {
            break;
        }
        yield_as(Wait::Lock { id, write });
    }
    // others may run while the lock is held
    point();
}
fn take(id: usize, write: bool) -> bool {
    let mut g = lock();
    let r = g.as_mut().unwrap();
    if !r.lock_free(id, write) {
        return false;
    }
    let l = r.locks.entry(id).or_default();
    if write {
        l.writer = true
    } else {
        l.readers += 1
    }
    r.note(Event::Acquire { lock: id, write });
    true
}
/// true if the lock was taken
pub fn try_acquire(id: usize, write: bool) -> bool {
    if !controlled() {
        return true;
    }
    point();
    let ok = take(id, write);
    if ok {
        point();
    }
    ok
}
pub fn release(id: usize, write: bool) {
    if !controlled() {
        return;
    }
    if let Some(r) = lock().as_mut() {
        if let Some(l) = r.locks.get_mut(&id) {
            if write {
                l.writer = false
            } else {
                l.readers = l.readers.saturating_sub(1)
            }
        }
        r.note(Event::Release { lock: id, write });
    }
}
pub fn wait_cond(cond: usize) {
    yield_as(Wait::Notified { cond });
    if let Some(r) = lock().as_mut() {
        if let Some(n) = r.notified.get_mut(&cond) {
            *n = n.saturating_sub(1)
        }
    }
}
pub fn notify(cond: usize, all: bool) {
    if !controlled() {
        return;
    }
    if let Some(r) = lock().as_mut() {
        let waiting = r.threads.iter().filter(|t| t.wait == Wait::Notified { cond }).count();
        let n = r.notified.entry(cond).or_default();
        *n = if all { waiting } else { (*n + 1).min(waiting) };
    }
}

// ------------------------------------------------------------------ channels
pub fn chan_new(cap: Option<usize>) -> usize {
    let id = fresh_id();
    if controlled() {
        if let Some(r) = lock().as_mut() {
            r.chans.insert(id, Chan { len: 0, senders: 1, receivers: 1, cap });
            r.note(Event::NewSender { chan: id });
        }
    }
    id
}
fn chan(id: usize, f: impl FnOnce(&mut Chan)) {
    if controlled() {
        if let Some(c) = lock().as_mut().and_then(|r| r.chans.get_mut(&id)) {
            f(c)
        }
    }
}
pub fn chan_sender(id: usize, more: bool) {
    chan(id, |c| if more { c.senders += 1 } else { c.senders -= 1 });
    note(if more { Event::NewSender { chan: id } } else { Event::DropSender { chan: id } });
}
pub fn chan_receiver(id: usize, more: bool) {
    chan(id, |c| if more { c.receivers += 1 } else { c.receivers -= 1 });
}
/// before a message is sent
pub fn chan_room(id: usize) {
    if controlled() {
        yield_as(Wait::Room { chan: id })
    }
}
pub fn chan_sent(id: usize) {
    chan(id, |c| c.len += 1);
    note(Event::Send { chan: id });
}
pub fn chan_wait(id: usize) {
    if controlled() {
        yield_as(Wait::Recv { chan: id })
    }
}
pub fn chan_got(id: usize) {
    chan(id, |c| c.len = c.len.saturating_sub(1));
    note(Event::Got { chan: id });
}

// ------------------------------------------------------------------ pool
pub fn scope_new() -> usize {
    let mut g = lock();
    let r = g.as_mut().unwrap();
    r.next_scope += 1;
    let id = r.next_scope;
    r.scopes.insert(id, (0, None));
    id
}
pub fn is_worker() -> bool {
    me().is_some_and(|m| lock().as_ref().is_some_and(|r| r.threads[m].worker))
}
/// Queues a task of a scope.
pub fn scope_spawn(scope: usize, body: Task) {
    {
        let mut g = lock();
        let r = g.as_mut().unwrap();
        r.next_task += 1;
        let id = r.next_task;
        r.scopes.get_mut(&scope).unwrap().0 += 1;
        r.queue.push((id, scope, body));
        r.note(Event::Spawn { task: id, scope });
    }
    point();
}
/// Waits until every task of the scope is done; a worker runs queued tasks meanwhile.
pub fn scope_wait(scope: usize) {
    note(Event::ScopeWait { scope });
    if is_worker() {
        loop {
            yield_as(Wait::Helping { id: scope });
            if !run_picked() {
                break;
            }
        }
    } else {
        yield_as(Wait::Scope { id: scope });
    }
    let p = {
        let mut g = lock();
        g.as_mut().unwrap().scopes.get_mut(&scope).unwrap().1.take()
    };
    if let Some(p) = p {
        resume_unwind(p);
    }
}
fn run_picked() -> bool {
    let m = me().unwrap();
    let (id, scope, body) = {
        let mut g = lock();
        let r = g.as_mut().unwrap();
        let Some(q) = r.pick.remove(&m) else { return false };
        let t = r.queue.remove(q);
        r.threads[m].stack.push(t.0);
        r.note(Event::Start { task: t.0 });
        t
    };
    let res = catch_unwind(AssertUnwindSafe(body));
    let mut g = lock();
    let r = g.as_mut().unwrap();
    r.note(Event::End { task: id });
    r.threads[m].stack.pop();
    let s = r.scopes.get_mut(&scope).unwrap();
    s.0 -= 1;
    if let Err(p) = res {
        s.1.get_or_insert(p);
    }
    true
}
fn worker_loop() {
    loop {
        if !yield_idle(Wait::Idle) {
            return;
        }
        run_picked();
    }
}
pub fn workers() -> usize {
    lock().as_ref().map_or(1, |r| r.threads.iter().filter(|t| t.worker).count())
}

// ------------------------------------------------------------------ threads
/// Registers a new virtual thread and returns its number; its OS thread has to call `enter`.
pub fn thread_new() -> usize {
    let mut g = lock();
    let r = g.as_mut().unwrap();
    r.threads.push(Th { wait: Wait::Ready, worker: false, stack: vec![0] });
    r.threads.len() - 1
}
fn enter(t: usize) {
    let w = world();
    if wait_turn(w, guard(w), t).is_none() {
        hang()
    }
}
/// ties an OS thread to the run of the thread that starts it
pub fn token() -> Token {
    Token(world())
}
#[derive(Clone, Copy)]
pub struct Token(&'static World);
impl Token {
    pub fn enter(self, t: usize) {
        ME.with(|m| m.set(Some((self.0, t))));
        enter(t)
    }
}
pub fn leave() {
    let Some((w, m)) = ME.with(|m| m.get()) else { return };
    let mut g = guard(w);
    if let Some(r) = g.as_mut() {
        if r.stuck.is_none() && !r.over {
            r.threads[m].wait = Wait::Done;
            r.decide();
        }
    }
    w.kick(g.as_ref());
    drop(g);
    ME.with(|m| m.set(None));
}
pub fn join(v: Vec<usize>) {
    if controlled() && !v.is_empty() {
        yield_as(Wait::Threads(v))
    }
}

// ------------------------------------------------------------------ runs
#[derive(Clone)]
pub struct Config {
    /// pool workers
    pub workers: usize,
    /// the body is run by a pool worker
    pub inside: bool,
    /// record events
    pub log: bool,
    /// how often a run may leave the default choice
    pub deviations: usize,
    /// by default idle workers take tasks before other threads go on
    pub eager: bool,
}
pub struct Outcome<R> {
    /// the body's result, or its panic; None if the run got stuck
    pub result: Option<Result<R, Box<dyn Any + Send>>>,
    pub stuck: Option<String>,
    /// the deviation bound cut something off
    pub bounded: bool,
    pub decisions: usize,
    pub log: Vec<(usize, Event)>,
}

/// One controlled run; every choice is made by `choose`.
pub fn run<R: Send + 'static>(cfg: &Config, choose: Choose, body: Box<dyn FnOnce() -> R + Send>) -> Outcome<R> {
    let n = cfg.workers;
    let mut threads = vec![Th { wait: Wait::Ready, worker: cfg.inside, stack: vec![0] }];
    let others = if cfg.inside { n.saturating_sub(1) } else { n };
    for _ in 0..others {
        threads.push(Th { wait: Wait::Idle, worker: true, stack: vec![] });
    }
    let world: &'static World = Box::leak(Box::new(World { run: Mutex::new(None), wake: [const { Condvar::new() }; 17] }));
    *guard(world) = Some(Run {
        threads,
        current: 0,
        queue: vec![],
        scopes: HashMap::new(),
        chans: HashMap::new(),
        locks: HashMap::new(),
        notified: HashMap::new(),
        choose,
        decisions: 0,
        deviations: 0,
        max_deviations: cfg.deviations,
        eager: cfg.eager,
        bounded: false,
        stuck: None,
        pick: HashMap::new(),
        next_task: 0,
        next_scope: 0,
        steps: 0,
        log: cfg.log.then(Vec::new),
        over: false,
    });
    let slot: Arc<Mutex<Option<Result<R, Box<dyn Any + Send>>>>> = Arc::new(Mutex::new(None));
    for w in 1..=others {
        spawn_os(move || {
            ME.with(|m| m.set(Some((world, w))));
            let Some(mut g) = wait_turn(world, guard(world), w) else { return };
            g.as_mut().unwrap().threads[w].wait = Wait::Ready;
            drop(g);
            run_picked();
            worker_loop();
        });
    }
    let s2 = slot.clone();
    spawn_os(move || {
        ME.with(|m| m.set(Some((world, 0))));
        let res = catch_unwind(AssertUnwindSafe(body));
        *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(res);
        let mut g = guard(world);
        if let Some(r) = g.as_mut() {
            if r.stuck.is_none() && !r.over {
                r.threads[0].wait = Wait::Done;
                r.decide();
            }
        }
        world.kick(g.as_ref());
        drop(g);
        ME.with(|m| m.set(None));
    });
    let mut g = guard(world);
    loop {
        let r = g.as_ref().unwrap();
        if r.over || r.stuck.is_some() {
            break;
        }
        g = world.wake[0].wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let r = g.take().unwrap();
    world.kick(None);
    drop(g);
    let result = slot.lock().unwrap_or_else(|e| e.into_inner()).take();
    Outcome {
        result: if r.stuck.is_some() { None } else { result },
        stuck: r.stuck,
        bounded: r.bounded,
        decisions: r.decisions,
        log: r.log.unwrap_or_default(),
    }
}

fn spawn_os(f: impl FnOnce() + Send + 'static) {
    ::std::thread::Builder::new().stack_size(4 << 20).spawn(f).expect("cannot start a thread");
}
