//! The scheduler: of the threads of an execution exactly one runs; before every lock operation
//! it is decided who runs next. Locks follow the standard library's futex lock: a writer that
//! waits keeps new readers out (and makes `try_read` fail), so reading twice in one thread can
//! block for ever.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Read,
    Write,
}
/// identity of a lock: its number in the execution that last used it
pub struct Name(AtomicU64);
impl Name {
    pub const fn new() -> Name {
        Name(AtomicU64::new(0))
    }
    fn addr(&self) -> usize {
        self as *const Name as usize
    }
}
thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }

#[derive(Default)]
struct Lk {
    writer: Option<usize>,
    readers: Vec<usize>,
    waiting_writers: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked(usize, Kind),
    Done,
}
/// one decision: who could run, who was chosen, whether choosing another than the first costs
#[derive(Clone, Debug)]
pub struct Step {
    pub enabled: Vec<usize>,
    pub chosen: usize,
    /// the running thread could have gone on
    pub preempt: bool,
}
#[derive(Default)]
struct Ctl {
    st: Vec<St>,
    cur: usize,
    locks: HashMap<usize, Lk>,
    prefix: Vec<usize>,
    steps: Vec<Step>,
    ops: u64,
    /// (thread, address, kind) of every acquisition, for reports
    log: Vec<(usize, usize, Kind, bool)>,
    deadlock: Option<String>,
    diverged: bool,
    limit: usize,
    at_release: bool,
    /// who has used which lock and whether it was locked for writing; the locks that matter
    used: Used,
    shared: std::collections::HashSet<u64>,
    next: Vec<u64>,
    grown: bool,
    reduce: bool,
}
static CTL: Mutex<Option<Ctl>> = Mutex::new(None);
static CV: [Condvar; 8] = [const { Condvar::new() }; 8];
static MAIN: Condvar = Condvar::new();
static ABORT: AtomicBool = AtomicBool::new(false);
static EPOCH: AtomicU64 = AtomicU64::new(1);

/// per lock: the threads that have used it, and whether one locked it for writing
pub type Used = HashMap<u64, (u32, bool)>;
/// what a thread is ended with when its execution is given up
pub struct Abort;

pub fn aborting() -> bool {
    ABORT.load(SeqCst)
}
fn me() -> Option<usize> {
    ME.with(|m| m.get())
}
fn lock() -> MutexGuard<'static, Option<Ctl>> {
    CTL.lock().unwrap_or_else(|e| e.into_inner())
}
fn give_up() -> ! {
    std::panic::resume_unwind(Box::new(Abort))
}
impl Ctl {
    fn grantable(&self, addr: usize, kind: Kind) -> bool {
        match self.locks.get(&addr) {
            None => true,
            Some(l) => match kind {
                Kind::Write => l.writer.is_none() && l.readers.is_empty(),
                Kind::Read => l.writer.is_none() && l.waiting_writers == 0,
            },
        }
    }
    fn take(&mut self, addr: usize, kind: Kind, t: usize) {
        let l = self.locks.entry(addr).or_default();
        match kind {
            Kind::Write => l.writer = Some(t),
            Kind::Read => l.readers.push(t),
        }
    }
    fn enabled(&self, t: usize) -> bool {
        match self.st[t] {
            St::Ready => true,
            St::Done => false,
            St::Blocked(a, k) => self.grantable(a, k),
        }
    }
    /// who runs next; None when nobody can
    fn decide(&mut self, from: Option<usize>) -> Option<usize> {
        let mut en: Vec<usize> = vec![];
        let preempt = from.is_some_and(|t| self.enabled(t));
        if preempt {
            en.push(from.unwrap());
        }
        for t in 0..self.st.len() {
            if Some(t) != from && self.enabled(t) {
                en.push(t);
            }
        }
        if en.is_empty() {
            return None;
        }
        if en.len() == 1 {
            return Some(en[0]);
        }
        let i = self.steps.len();
        let chosen = match self.prefix.get(i) {
            Some(t) if en.contains(t) => *t,
            Some(_) => {
                self.diverged = true;
                en[0]
            }
            None => en[0],
        };
        self.steps.push(Step { enabled: en, chosen, preempt });
        Some(chosen)
    }
    fn describe(&self) -> String {
        let mut s = String::new();
        for (t, st) in self.st.iter().enumerate() {
            match st {
                St::Blocked(a, k) => {
                    let l = self.locks.get(a);
                    let who = match l {
                        Some(Lk { writer: Some(w), .. }) => format!("held for writing by thread {w}"),
                        Some(l) => format!("read by threads {:?}, {} writers waiting", l.readers, l.waiting_writers),
                        None => "free".into(),
                    };
                    s += &format!("thread {t} waits to {k:?} a lock {who}; ");
                }
                St::Ready => s += &format!("thread {t} runs; "),
                St::Done => s += &format!("thread {t} is done; "),
            }
        }
        s
    }
}
/// hand over to the thread chosen, and wait until it is this one's turn again
fn switch(mut g: MutexGuard<'static, Option<Ctl>>, t: usize, alive: bool) -> MutexGuard<'static, Option<Ctl>> {
    let c = g.as_mut().unwrap();
    match c.decide(Some(t)) {
        Some(n) => {
            c.cur = n;
            if n == t {
                return g;
            }
            CV[n].notify_one();
        }
        None => {
            if c.st.iter().all(|s| *s == St::Done) {
                c.cur = usize::MAX;
                MAIN.notify_all();
                return g;
            }
            c.deadlock = Some(c.describe());
            ABORT.store(true, SeqCst);
            c.cur = usize::MAX;
            MAIN.notify_all();
            CV.iter().for_each(|v| v.notify_all());
        }
    }
    if !alive {
        return g;
    }
    while g.as_ref().unwrap().cur != t && !aborting() {
        g = CV[t].wait(g).unwrap_or_else(|e| e.into_inner());
    }
    if aborting() {
        drop(g);
        give_up();
    }
    g
}
fn name(c: &mut Ctl, n: &Name, t: usize) -> u64 {
    let e = EPOCH.load(SeqCst);
    let v = n.0.load(SeqCst);
    if v >> 32 == e {
        return v & 0xffff_ffff;
    }
    // first used by this thread in this execution: the thread's own count names it
    let k = (t as u64 + 1) << 24 | c.next[t];
    c.next[t] += 1;
    n.0.store(e << 32 | k, SeqCst);
    k
}
/// give a lock the name of its place, before the threads of an execution start
pub fn number(n: u64, of: &(impl HasName + ?Sized)) {
    of.name().0.store(EPOCH.load(SeqCst) << 32 | n, SeqCst);
}
/// no decisions before this lock; for locks under which no other lock is taken
pub fn leave_out(of: &(impl HasName + ?Sized)) {
    number(LEFT_OUT, of);
}
const LEFT_OUT: u64 = 0xff_ffff;
pub trait HasName {
    fn name(&self) -> &Name;
}
fn point(mut g: MutexGuard<'static, Option<Ctl>>, n: &Name, t: usize, kind: Kind) -> MutexGuard<'static, Option<Ctl>> {
    let c = g.as_mut().unwrap();
    c.ops += 1;
    let id = name(c, n, t);
    if id == LEFT_OUT && c.grantable(n.addr(), kind) {
        return g;
    }
    // a lock matters when two threads use it and one of them for writing: what only reads can be
    // exchanged with everything
    let u = c.used.entry(id).or_default();
    u.0 |= 1 << t;
    u.1 |= kind == Kind::Write;
    if u.1 && u.0.count_ones() > 1 && c.shared.insert(id) {
        c.grown = true;
    }
    if c.ops as usize > c.limit {
        c.deadlock = Some(format!("no end after {} lock operations; {}", c.ops, c.describe()));
        ABORT.store(true, SeqCst);
        MAIN.notify_all();
        CV.iter().for_each(|v| v.notify_all());
        drop(g);
        give_up();
    }
    if c.reduce && !c.shared.contains(&id) {
        return g;
    }
    switch(g, t, true)
}
/// true when the acquisition is part of the model
pub fn acquire(n: &Name, kind: Kind) -> bool {
    let Some(t) = me() else { return false };
    if aborting() {
        if std::thread::panicking() {
            return false;
        }
        give_up();
    }
    let mut g = point(lock(), n, t, kind);
    let a = n.addr();
    loop {
        let c = g.as_mut().unwrap();
        if c.grantable(a, kind) {
            c.take(a, kind, t);
            c.log.push((t, a, kind, true));
            return true;
        }
        c.st[t] = St::Blocked(a, kind);
        if kind == Kind::Write {
            c.locks.get_mut(&a).unwrap().waiting_writers += 1;
        }
        g = switch(g, t, true);
        let c = g.as_mut().unwrap();
        c.st[t] = St::Ready;
        if kind == Kind::Write {
            c.locks.get_mut(&a).unwrap().waiting_writers -= 1;
        }
    }
}
/// None: not part of the model
pub fn try_acquire(n: &Name, kind: Kind) -> Option<bool> {
    let t = me()?;
    if aborting() {
        if std::thread::panicking() {
            return None;
        }
        give_up();
    }
    let mut g = point(lock(), n, t, kind);
    let a = n.addr();
    let c = g.as_mut().unwrap();
    let ok = c.grantable(a, kind);
    if ok {
        c.take(a, kind, t);
    }
    c.log.push((t, a, kind, ok));
    Some(ok)
}
pub fn released(n: &Name, kind: Kind) {
    let Some(t) = me() else {
        // a guard that went to another thread
        return;
    };
    let mut g = lock();
    let Some(c) = g.as_mut() else { return };
    let a = n.addr();
    if let Some(l) = c.locks.get_mut(&a) {
        match kind {
            Kind::Write => l.writer = None,
            Kind::Read => {
                if let Some(i) = l.readers.iter().position(|r| *r == t) {
                    l.readers.remove(i);
                }
            }
        }
        if l.writer.is_none() && l.readers.is_empty() && l.waiting_writers == 0 {
            c.locks.remove(&a);
        }
    }
    if c.at_release && !aborting() && !std::thread::panicking() {
        drop(switch(g, t, true));
    }
}

type Job = Box<dyn FnOnce() + Send>;
static POOL: Mutex<Vec<mpsc::Sender<Job>>> = Mutex::new(vec![]);
/// the threads are kept from one execution to the next
fn give(t: usize, job: Job) {
    let mut p = POOL.lock().unwrap();
    while p.len() <= t {
        let (tx, rx) = mpsc::channel::<Job>();
        std::thread::spawn(move || rx.into_iter().for_each(|j| j()));
        p.push(tx);
    }
    p[t].send(job).unwrap();
}

/// what came of one execution
pub struct Outcome<T> {
    pub steps: Vec<Step>,
    pub ops: u64,
    pub deadlock: Option<String>,
    pub diverged: bool,
    /// per thread: its result, or the message of its panic
    pub results: Vec<Result<T, String>>,
    pub log: Vec<(usize, usize, Kind, bool)>,
    pub shared: std::collections::HashSet<u64>,
    pub used: Used,
    pub grown: bool,
}
pub struct Plan {
    pub prefix: Vec<usize>,
    pub at_release: bool,
    pub reduce: bool,
    pub shared: std::collections::HashSet<u64>,
    pub used: Used,
}
/// a new execution; locks named from here on belong to it
pub fn begin() {
    EPOCH.fetch_add(1, SeqCst);
}
/// run the threads under the schedule that `prefix` starts
pub fn run<T: Send + 'static>(plan: Plan, bodies: Vec<Box<dyn FnOnce() -> T + Send>>) -> Outcome<T> {
    let n = bodies.len();
    ABORT.store(false, SeqCst);
    *lock() = Some(Ctl {
        st: vec![St::Ready; n],
        cur: usize::MAX,
        prefix: plan.prefix,
        limit: 200_000,
        at_release: plan.at_release,
        shared: plan.shared,
        used: plan.used,
        next: vec![0; n],
        reduce: plan.reduce,
        ..Default::default()
    });
    let done: Arc<(Mutex<(usize, Vec<Option<Result<T, String>>>)>, Condvar)> = Arc::new((Mutex::new((0, (0..n).map(|_| None).collect())), Condvar::new()));
    for (t, b) in bodies.into_iter().enumerate() {
        let done = Arc::clone(&done);
        give(t, Box::new(move || {
            ME.with(|m| m.set(Some(t)));
            let mut g = lock();
            while g.as_ref().unwrap().cur != t && !aborting() {
                g = CV[t].wait(g).unwrap_or_else(|e| e.into_inner());
            }
            drop(g);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if aborting() {
                    give_up();
                }
                b()
            }));
            let r = r.map_err(|e| {
                if e.is::<Abort>() {
                    "given up".to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    format!("panic: {s}")
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    format!("panic: {s}")
                } else {
                    "panic".to_string()
                }
            });
            let mut g = lock();
            g.as_mut().unwrap().st[t] = St::Done;
            if !aborting() {
                g = switch(g, t, false);
            }
            drop(g);
            ME.with(|m| m.set(None));
            let mut d = done.0.lock().unwrap();
            d.1[t] = Some(r);
            d.0 += 1;
            done.1.notify_one();
        }));
    }
    {
        let mut g = lock();
        let c = g.as_mut().unwrap();
        let first = c.decide(None).unwrap();
        c.cur = first;
        CV[first].notify_one();
    }
    let results = {
        let mut d = done.0.lock().unwrap();
        while d.0 < n {
            d = done.1.wait(d).unwrap();
        }
        std::mem::take(&mut d.1).into_iter().map(|r| r.unwrap()).collect()
    };
    let c = lock().take().unwrap();
    let o = Outcome { steps: c.steps, ops: c.ops, deadlock: c.deadlock, diverged: c.diverged, results, log: c.log, shared: c.shared, used: c.used, grown: c.grown };
    ABORT.store(false, SeqCst);
    o
}
