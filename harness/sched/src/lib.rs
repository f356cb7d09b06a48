//! A scheduler that runs real threads one at a time and lets the caller decide, at every operation on
//! a shared lock, map or queue, which thread goes on. The stand-ins for parking_lot, dashmap and
//! crossbeam_queue call it; on a thread that is not being scheduled they behave as ordinary locks.

use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}

struct Inner {
    st:    Vec<St>,
    cur:   Option<usize>,
    abort: bool,
    what:  Vec<&'static str>,
}

pub struct Sched {
    inner: Mutex<Inner>,
    cv:    Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

struct Aborted;

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.with(|m| m.borrow().clone())
}

pub fn scheduled() -> bool {
    ME.with(|m| m.borrow().is_some())
}

fn give_up_turn(s: &Sched, id: usize, st: St, what: &'static str) {
    let mut g = s.inner.lock().unwrap();
    g.st[id] = st;
    g.what[id] = what;
    g.cur = None;
    s.cv.notify_all();
    while g.cur != Some(id) {
        if g.abort {
            drop(g);
            std::panic::resume_unwind(Box::new(Aborted));
        }
        g = s.cv.wait(g).unwrap();
    }
}

/// Another thread may go first.
pub fn point(what: &'static str) {
    if std::thread::panicking() {
        return;
    }
    if let Some((s, id)) = me() {
        give_up_turn(&s, id, St::Ready, what);
    }
}

fn block(addr: usize, what: &'static str) -> bool {
    match me() {
        Some((s, id)) if !std::thread::panicking() => {
            give_up_turn(&s, id, St::Blocked(addr), what);
            true
        }
        _ => false,
    }
}

fn wake(addr: usize) {
    if let Some((s, _)) = me() {
        let mut g = s.inner.lock().unwrap();
        for st in g.st.iter_mut() {
            if *st == St::Blocked(addr) {
                *st = St::Ready;
            }
        }
    }
}

#[derive(Debug)]
pub enum Outcome {
    Finished,
    /// Every unfinished thread waits: what each of them waits for.
    Deadlock(Vec<String>),
    Panic(usize, String),
    /// More steps than allowed.
    TooLong,
}

/// Runs the threads to their ends. `next(current, ready)` names the thread that goes on; `current` is
/// the one that went last, if it still can. Returns the outcome and the number of steps.
pub fn run<'a>(
    threads: Vec<Box<dyn FnOnce() + Send + 'a>>,
    max_steps: usize,
    next: &mut dyn FnMut(Option<usize>, &[usize]) -> usize,
) -> (Outcome, usize) {
    let n = threads.len();
    let s = Arc::new(Sched {
        inner: Mutex::new(Inner { st: vec![St::Ready; n], cur: None, abort: false, what: vec!["start"; n] }),
        cv:    Condvar::new(),
    });
    let panics: Mutex<HashMap<usize, String>> = Mutex::new(HashMap::new());
    let mut outcome = Outcome::Finished;
    let mut steps = 0;
    std::thread::scope(|scope| {
        for (id, f) in threads.into_iter().enumerate() {
            let s = Arc::clone(&s);
            let panics = &panics;
            scope.spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((Arc::clone(&s), id)));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    {
                        let mut g = s.inner.lock().unwrap();
                        while g.cur != Some(id) {
                            if g.abort {
                                return;
                            }
                            g = s.cv.wait(g).unwrap();
                        }
                    }
                    f()
                }));
                if let Err(e) = r {
                    if e.downcast_ref::<Aborted>().is_none() {
                        let msg = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_else(|| "a panic".to_string());
                        panics.lock().unwrap().insert(id, msg);
                    }
                }
                ME.with(|m| *m.borrow_mut() = None);
                let mut g = s.inner.lock().unwrap();
                g.st[id] = St::Done;
                if g.cur == Some(id) {
                    g.cur = None;
                }
                s.cv.notify_all();
            });
        }
        let mut last: Option<usize> = None;
        let mut g = s.inner.lock().unwrap();
        loop {
            while g.cur.is_some() {
                g = s.cv.wait(g).unwrap();
            }
            if let Some((id, m)) = panics.lock().unwrap().iter().next() {
                outcome = Outcome::Panic(*id, m.clone());
            }
            let ready: Vec<usize> = (0..n).filter(|i| g.st[*i] == St::Ready).collect();
            if matches!(outcome, Outcome::Panic(..)) || ready.is_empty() || steps >= max_steps {
                if !matches!(outcome, Outcome::Panic(..)) {
                    if !ready.is_empty() {
                        outcome = Outcome::TooLong;
                    } else if g.st.iter().any(|x| *x != St::Done) {
                        outcome = Outcome::Deadlock(
                            (0..n)
                                .filter(|i| g.st[*i] != St::Done)
                                .map(|i| format!("thread {i} waits for {}", g.what[i]))
                                .collect(),
                        );
                    }
                }
                g.abort = true;
                s.cv.notify_all();
                break;
            }
            let cur = last.filter(|i| ready.contains(i));
            drop(g);
            let pick = next(cur, &ready);
            g = s.inner.lock().unwrap();
            steps += 1;
            last = Some(pick);
            g.cur = Some(pick);
            s.cv.notify_all();
        }
    });
    (outcome, steps)
}

/// The state of a readers-writer lock that prefers waiting writers, as parking_lot's does.
#[derive(Debug, Default)]
pub struct RawLock {
    st: Mutex<(usize, bool, usize)>, // readers, written, writers waiting
    cv: Condvar,
}

impl RawLock {
    pub const fn new() -> Self {
        RawLock { st: Mutex::new((0, false, 0)), cv: Condvar::new() }
    }

    fn addr(&self) -> usize {
        self as *const _ as usize
    }

    pub fn read(&self, what: &'static str) {
        point(what);
        let mut g = self.st.lock().unwrap();
        while g.1 || g.2 > 0 {
            if scheduled() {
                drop(g);
                block(self.addr(), what);
                g = self.st.lock().unwrap();
            } else {
                g = self.cv.wait(g).unwrap();
            }
        }
        g.0 += 1;
    }

    pub fn write(&self, what: &'static str) {
        point(what);
        let mut g = self.st.lock().unwrap();
        if g.1 || g.0 > 0 {
            g.2 += 1;
            while g.1 || g.0 > 0 {
                if scheduled() {
                    drop(g);
                    block(self.addr(), what);
                    g = self.st.lock().unwrap();
                } else {
                    g = self.cv.wait(g).unwrap();
                }
            }
            g.2 -= 1;
        }
        g.1 = true;
    }

    pub fn try_write(&self) -> bool {
        point("try");
        let mut g = self.st.lock().unwrap();
        if g.1 || g.0 > 0 {
            return false;
        }
        g.1 = true;
        true
    }

    pub fn done_read(&self) {
        let mut g = self.st.lock().unwrap();
        g.0 -= 1;
        self.cv.notify_all();
        drop(g);
        wake(self.addr());
    }

    pub fn done_write(&self) {
        let mut g = self.st.lock().unwrap();
        g.1 = false;
        self.cv.notify_all();
        drop(g);
        wake(self.addr());
    }
}
