//! Cooperative tasks and the choice of the next one at every scheduling point.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

/// Decides which task runs next.
pub trait Chooser {
    /// `enabled`: tasks that can run, in order. `cur`: the running task if it could go on.
    /// `started(i)`: whether task `i` ran before.
    fn choose(&mut self, enabled: &[usize], cur: Option<usize>, started: &[bool]) -> usize;
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    /// Waits for the lock at this address.
    Blocked(usize),
    Done,
}
struct Sect {
    st: Vec<St>,
    started: Vec<bool>,
    cur: usize,
    next: usize,
    yielder: *const Yielder<(), ()>,
    points: u64,
    max_points: u64,
    deadlock: bool,
    livelock: bool,
}
thread_local! {
    static SECT: RefCell<Option<Sect>> = const { RefCell::new(None) };
    static CHOOSER: RefCell<Option<Box<dyn Chooser>>> = const { RefCell::new(None) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(vec![]) };
    static POINTS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn set_chooser(c: Option<Box<dyn Chooser>>) -> Option<Box<dyn Chooser>> {
    CHOOSER.with(|x| std::mem::replace(&mut *x.borrow_mut(), c))
}
/// Scheduling points met on this OS thread so far.
pub fn points() -> u64 {
    POINTS.with(|p| p.get())
}
fn pick(s: &Sect, can_go_on: bool) -> Option<usize> {
    let en: Vec<usize> = (0..s.st.len()).filter(|i| s.st[*i] == St::Ready && (can_go_on || *i != s.cur)).collect();
    if en.is_empty() {
        return None;
    }
    if en.len() == 1 {
        return Some(en[0]);
    }
    let cur = (can_go_on && s.st[s.cur] == St::Ready).then_some(s.cur);
    Some(CHOOSER.with(|c| match c.borrow_mut().as_mut() {
        Some(c) => c.choose(&en, cur, &s.started),
        None => cur.unwrap_or(en[0]),
    }))
}
/// A point where another task may be scheduled instead of the running one.
pub fn point(_addr: usize) {
    if std::thread::panicking() {
        return;
    }
    let y = SECT.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut()?;
        s.points += 1;
        if s.points > s.max_points {
            s.livelock = true;
            s.next = usize::MAX;
            return Some(s.yielder);
        }
        let n = pick(s, true).unwrap_or(s.cur);
        if n == s.cur {
            return None;
        }
        s.next = n;
        Some(s.yielder)
    });
    if let Some(y) = y {
        unsafe { (*y).suspend(()) }
    }
}
/// Gives up the processor until the lock at `addr` was released. Returns false outside a section.
pub(crate) fn block(addr: usize) -> bool {
    if std::thread::panicking() {
        return false;
    }
    let y = SECT.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut()?;
        let c = s.cur;
        s.st[c] = St::Blocked(addr);
        s.next = match pick(s, false) {
            Some(n) => n,
            None => {
                s.deadlock = true;
                usize::MAX
            }
        };
        Some(s.yielder)
    });
    match y {
        Some(y) => {
            unsafe { (*y).suspend(()) };
            true
        }
        None => false,
    }
}
pub(crate) fn released(addr: usize) {
    SECT.with(|s| {
        if let Ok(mut s) = s.try_borrow_mut()
            && let Some(s) = s.as_mut()
        {
            for x in &mut s.st {
                if *x == St::Blocked(addr) {
                    *x = St::Ready
                }
            }
        }
    })
}
pub fn in_section() -> bool {
    SECT.with(|s| s.borrow().is_some())
}

#[derive(Debug)]
pub enum Stuck {
    Deadlock,
    Livelock,
}
/// Runs `f(0)..f(n-1)` as concurrent tasks under the installed chooser. A panic of a task is
/// propagated.
pub fn section(n: usize, stack: usize, max_points: u64, f: &dyn Fn(usize)) -> Result<(), Stuck> {
    assert!(!in_section(), "nested parallel section");
    // The coroutines do not outlive this call.
    let f: &'static dyn Fn(usize) = unsafe { std::mem::transmute(f) };
    let mut cos: Vec<Option<Coroutine<(), (), ()>>> = (0..n)
        .map(|i| {
            let st = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(stack).unwrap());
            Some(Coroutine::with_stack(st, move |y: &Yielder<(), ()>, ()| {
                SECT.with(|s| s.borrow_mut().as_mut().unwrap().yielder = y);
                f(i)
            }))
        })
        .collect();
    let mut ys: Vec<*const Yielder<(), ()>> = vec![std::ptr::null(); n];
    SECT.with(|s| {
        *s.borrow_mut() = Some(Sect {
            st: vec![St::Ready; n],
            started: vec![false; n],
            cur: 0,
            next: 0,
            yielder: std::ptr::null(),
            points: 0,
            max_points,
            deadlock: false,
            livelock: false,
        })
    });
    let mut next = SECT.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        s.cur = usize::MAX;
        pick(s, false)
    });
    let mut res = Ok(());
    let mut panic = None;
    while let Some(t) = next {
        SECT.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.as_mut().unwrap();
            s.cur = t;
            s.next = usize::MAX;
            s.started[t] = true;
            s.yielder = ys[t];
        });
        let r = catch_unwind(AssertUnwindSafe(|| cos[t].as_mut().unwrap().resume(())));
        match r {
            Err(p) => {
                panic = Some(p);
                break;
            }
            Ok(CoroutineResult::Yield(())) => {
                let (n, stuck, y) = SECT.with(|s| {
                    let s = s.borrow();
                    let s = s.as_ref().unwrap();
                    let stuck = if s.deadlock {
                        Some(Stuck::Deadlock)
                    } else if s.livelock {
                        Some(Stuck::Livelock)
                    } else {
                        None
                    };
                    (s.next, stuck, s.yielder)
                });
                ys[t] = y;
                if let Some(s) = stuck {
                    res = Err(s);
                    break;
                }
                next = Some(n);
            }
            Ok(CoroutineResult::Return(())) => {
                let st = cos[t].take().unwrap().into_stack();
                STACKS.with(|s| s.borrow_mut().push(st));
                let left = SECT.with(|s| {
                    let mut s = s.borrow_mut();
                    let s = s.as_mut().unwrap();
                    s.st[t] = St::Done;
                    let left = s.st.iter().any(|x| *x != St::Done);
                    (left, pick(s, false))
                });
                if left.0 && left.1.is_none() {
                    res = Err(Stuck::Deadlock);
                    break;
                }
                next = left.1;
            }
        }
    }
    let s = SECT.with(|s| s.borrow_mut().take()).unwrap();
    POINTS.with(|p| p.set(p.get() + s.points));
    // Tasks that did not finish (deadlock, or another task panicked) are abandoned, not unwound.
    for c in cos.into_iter().flatten() {
        std::mem::forget(c);
    }
    if let Some(p) = panic {
        resume_unwind(p)
    }
    res
}
