//! C05 / C06: the work items of every parallel section in every (bounded) order and every
//! (preemption-bounded) interleaving of the decoder's synchronisation operations. Only built with the
//! `sched` feature, where jxl's synchronisation types are the controlled ones of mc/shuttle.
use crate::dec::*;
use crate::engine::*;
use crate::seeds::{self, Seed};
use jxl::api::{JxlParallelRunner, JxlParallelRunnerFun};
use shuttle::control::{self, Chooser, Stuck};
use shuttle::sync::atomic::{AtomicUsize, Ordering};
use std::cell::RefCell;
use std::rc::Rc;

// ------------------------------------------------------------ exploration of schedules
struct Choice {
    opts: Vec<usize>,
    i: usize,
}
/// Depth-first enumeration of all schedules with at most `bound` preemptions.
#[derive(Default)]
struct Dfs {
    stack: Vec<Choice>,
    pos: usize,
    bound: usize,
    used: usize,
    diverged: bool,
}
impl Dfs {
    fn begin(&mut self) {
        self.pos = 0;
        self.used = 0;
    }
    /// Moves to the next unexplored schedule.
    fn advance(&mut self) -> bool {
        self.stack.truncate(self.pos);
        while let Some(c) = self.stack.last_mut() {
            c.i += 1;
            if c.i < c.opts.len() {
                return true;
            }
            self.stack.pop();
        }
        false
    }
    fn schedule(&self) -> String {
        let v: Vec<String> = self
            .stack
            .iter()
            .enumerate()
            .filter(|(_, c)| c.i > 0)
            .map(|(k, c)| format!("{k}:{}", c.opts[c.i]))
            .collect();
        format!("decisions {} deviating at [{}]", self.stack.len(), v.join(" "))
    }
}
struct Handle(Rc<RefCell<Dfs>>);
impl Chooser for Handle {
    fn choose(&mut self, en: &[usize], cur: Option<usize>, started: &[bool]) -> usize {
        let mut d = self.0.borrow_mut();
        // tasks that did not start yet are interchangeable: only the first one is an option
        let fresh = en.iter().copied().find(|e| !started[*e]);
        let list = |skip: Option<usize>| -> Vec<usize> {
            en.iter().copied().filter(|e| Some(*e) != skip && (started[*e] || Some(*e) == fresh)).collect()
        };
        let mut opts = match cur {
            None => list(None),
            Some(c) => {
                let mut v = vec![c];
                if d.used < d.bound {
                    v.extend(list(Some(c)));
                }
                v
            }
        };
        if self.distinct() {
            opts = match cur {
                None => en.to_vec(),
                Some(c) if d.used < d.bound => std::iter::once(c).chain(en.iter().copied().filter(|e| *e != c)).collect(),
                Some(c) => vec![c],
            };
        }
        let p = d.pos;
        d.pos += 1;
        if p == d.stack.len() {
            d.stack.push(Choice { opts, i: 0 });
        } else if d.stack[p].opts != opts {
            d.diverged = true;
        }
        let x = d.stack[p].opts[d.stack[p].i];
        if cur.is_some() && Some(x) != cur {
            d.used += 1;
        }
        x
    }
}
thread_local! {
    static DISTINCT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl Handle {
    fn distinct(&self) -> bool {
        DISTINCT.with(|d| d.get())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Model {
    /// This many workers taking the next item from a shared counter.
    Pool(usize),
    /// One task per item; pools of three workers above eight items.
    PerItem,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    No,
    /// The k-th item executed overall fails before / after its work was done.
    Before(usize),
    After(usize),
    /// The k-th call of the runner fails: nothing executed / everything executed.
    Refuse(usize),
    Late(usize),
}
/// Error reported by an injected failure.
fn injected() -> jxl::error::Error {
    jxl::error::Error::InvalidEnum(12345, "injected".into())
}
pub struct Ctl {
    model: Model,
    fault: Fault,
    items: std::sync::atomic::AtomicUsize,
    calls: usize,
    stuck: Option<Stuck>,
    /// Whether the fault happened.
    fired: std::sync::atomic::AtomicBool,
    pub sizes: Vec<usize>,
}
impl Ctl {
    fn new(model: Model, fault: Fault) -> Ctl {
        Ctl { model, fault, items: 0.into(), calls: 0, stuck: None, fired: false.into(), sizes: vec![] }
    }
}
type JResult = jxl::error::Result<()>;
fn faulty(c: &Ctl, i: usize, f: &JxlParallelRunnerFun<'_>) -> JResult {
    use std::sync::atomic::Ordering::SeqCst;
    let k = c.items.fetch_add(1, SeqCst);
    if c.fault == Fault::Before(k) {
        c.fired.store(true, SeqCst);
        return Err(injected());
    }
    f(i)?;
    if c.fault == Fault::After(k) {
        c.fired.store(true, SeqCst);
        return Err(injected());
    }
    Ok(())
}
const STACK: usize = 1 << 20;
const MAX_POINTS: u64 = 300_000;
impl JxlParallelRunner for Ctl {
    fn run(&mut self, num: usize, fun: &JxlParallelRunnerFun<'_>) -> JResult {
        self.sizes.push(num);
        let call = self.calls;
        self.calls += 1;
        if self.fault == Fault::Refuse(call) {
            self.fired.store(true, std::sync::atomic::Ordering::SeqCst);
            return Err(injected());
        }
        let me: &Ctl = self;
        let mut res = Ok(());
        let mut stuck = None;
        if num <= 1 {
            for i in 0..num {
                res = faulty(me, i, fun);
            }
        } else {
            let err: std::sync::Mutex<Option<jxl::error::Error>> = std::sync::Mutex::new(None);
            let r = match me.model {
                Model::PerItem if num <= 8 => {
                    DISTINCT.with(|d| d.set(true));
                    control::section(num, STACK, MAX_POINTS, &|t| {
                        if let Err(e) = faulty(me, t, fun) {
                            *err.lock().unwrap() = Some(e);
                        }
                    })
                }
                m => {
                    let t = match m {
                        Model::Pool(t) => t,
                        _ => 3,
                    };
                    DISTINCT.with(|d| d.set(false));
                    let next = AtomicUsize::new(0);
                    control::section(t.min(num), STACK, MAX_POINTS, &|_| {
                        loop {
                            if err.lock().unwrap().is_some() {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= num {
                                break;
                            }
                            if let Err(e) = faulty(me, i, fun) {
                                *err.lock().unwrap() = Some(e);
                                break;
                            }
                        }
                    })
                }
            };
            if let Err(s) = r {
                stuck = Some(s);
            }
            if let Some(e) = err.into_inner().unwrap() {
                res = Err(e);
            }
        }
        if self.fault == Fault::Late(call) {
            self.fired.store(true, std::sync::atomic::Ordering::SeqCst);
            res = Err(injected());
        }
        if stuck.is_some() {
            self.stuck = stuck;
            return Err(injected());
        }
        res
    }
}
// ------------------------------------------------------------ what is decoded and observed
/// One way to deliver a file: visible lengths, with a flush at every request inside a frame or none.
#[derive(Clone, Debug)]
struct Feed {
    cuts: Vec<usize>,
    flush: bool,
}
impl Feed {
    fn whole(n: usize) -> Feed {
        Feed { cuts: vec![n], flush: false }
    }
}
#[derive(PartialEq)]
struct Trace {
    out: Outcome,
    /// Frame, returned value and picture after every flush.
    flushes: Vec<(usize, bool, u64)>,
}
impl Trace {
    fn diff(&self, o: &Trace) -> Option<String> {
        if let Some(d) = self.out.diff(&o.out) {
            return Some(d);
        }
        if self.flushes.len() != o.flushes.len() {
            return Some(format!("{} flushes vs {}", self.flushes.len(), o.flushes.len()));
        }
        for (i, (a, b)) in self.flushes.iter().zip(&o.flushes).enumerate() {
            if a != b {
                return Some(format!("flush {i} (frame {}): returned {} vs {}, pictures {}", a.0, a.1, b.1, if a.2 == b.2 { "equal" } else { "differ" }));
            }
        }
        None
    }
}
struct Fwd<'a>(&'a mut dyn JxlParallelRunner);
impl JxlParallelRunner for Fwd<'_> {
    fn run(&mut self, n: usize, f: &JxlParallelRunnerFun<'_>) -> JResult {
        self.0.run(n, f)
    }
}
fn decode(data: &[u8], feed: &Feed, opts: &Opts, runner: Option<&mut dyn JxlParallelRunner>) -> Trace {
    let mut flushes = vec![];
    let mut rec = |f: usize, v: bool, _: &[Vec<u8>], b: &[Vec<u8>]| {
        flushes.push((f, v, b.iter().fold(0u64, |h, x| h.rotate_left(7) ^ hash_bytes(x))));
    };
    let fl = feed.flush;
    let flush = move |_: usize| fl;
    let out = {
        let mut fwd = runner.map(Fwd);
        let mut p = Plan::new(opts);
        p.flush = &flush;
        p.on_flush = Some(&mut rec);
        p.runner = fwd.as_mut().map(|f| f as _);
        let mut s = Script::new(data, feed.cuts[0]);
        run(&mut p, &mut s, &feed.cuts[1..])
    };
    Trace { out, flushes }
}
struct Found {
    execs: u64,
    steps: u64,
    /// Largest number of preemptions for which all schedules were explored.
    complete: Option<usize>,
    digest: u64,
}
/// All schedules of decoding `data` with at most `bmax` preemptions (stopping after `limit`
/// executions), each judged by `ok`.
fn explore(
    data: &[u8],
    feed: &Feed,
    model: Model,
    fault: Fault,
    bmax: usize,
    limit: u64,
    ok: &dyn Fn(&Ctl, &Trace) -> Result<(), String>,
) -> Result<Found, String> {
    let opts = Opts::default();
    let mut f = Found { execs: 0, steps: 0, complete: None, digest: 0 };
    let p0 = control::points();
    'bounds: for bound in 0..=bmax {
        let d = Rc::new(RefCell::new(Dfs { bound, ..Dfs::default() }));
        let mut any = false;
        loop {
            d.borrow_mut().begin();
            control::set_chooser(Some(Box::new(Handle(d.clone()))));
            let mut c = Ctl::new(model, fault);
            let t = {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decode(data, feed, &opts, Some(&mut c))));
                match r {
                    Ok(t) => t,
                    Err(_) => return Err(format!("panic: {}; {}", last_panic(), d.borrow().schedule())),
                }
            };
            control::set_chooser(None);
            f.execs += 1;
            if d.borrow().diverged {
                panic!("jxlmc-harness: the execution does not depend on the schedule alone");
            }
            any |= d.borrow().used > 0;
            if let Some(s) = &c.stuck {
                return Err(format!("{s:?} of the work items; {}", d.borrow().schedule()));
            }
            if let Err(e) = ok(&c, &t) {
                return Err(format!("{e}; preemption bound {bound}, {}", d.borrow().schedule()));
            }
            f.digest ^= t.out.digest().rotate_left((f.execs % 61) as u32);
            if !d.borrow_mut().advance() {
                break;
            }
            if f.execs >= limit {
                break 'bounds;
            }
        }
        f.complete = Some(bound);
        if bound > 0 && !any {
            // no schedule has more preemptions
            f.complete = Some(usize::MAX);
            break;
        }
    }
    f.steps = control::points() - p0;
    Ok(f)
}

// ------------------------------------------------------------ orders of items, one after the other
/// Runs the items of its k-th call in the order `ord(n)`, all others in storage order.
struct Ordered<'a> {
    at: Option<usize>,
    ord: &'a dyn Fn(usize) -> Vec<usize>,
    call: usize,
}
impl JxlParallelRunner for Ordered<'_> {
    fn run(&mut self, n: usize, f: &JxlParallelRunnerFun<'_>) -> JResult {
        let c = self.call;
        self.call += 1;
        if self.at.is_some_and(|a| a != c) {
            for i in 0..n {
                f(i)?;
            }
            return Ok(());
        }
        for i in (self.ord)(n) {
            f(i)?;
        }
        Ok(())
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}
/// Orders of n items: all of them for n <= 4, otherwise reversal, every item moved to the front or
/// to the back, and every exchange of two neighbours.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 4 {
        return perms(n);
    }
    let id: Vec<usize> = (0..n).collect();
    let mut v = vec![id.iter().rev().copied().collect::<Vec<_>>()];
    for i in 0..n {
        let mut a = id.clone();
        a.remove(i);
        let mut b = a.clone();
        a.insert(0, i);
        b.push(i);
        v.push(a);
        v.push(b);
        if i + 1 < n {
            let mut c = id.clone();
            c.swap(i, i + 1);
            v.push(c);
        }
    }
    v
}
fn stride(n: usize, k: usize) -> Vec<usize> {
    (0..k).flat_map(|s| (s..n).step_by(k)).collect()
}
fn feeds(n: usize, count: usize) -> Vec<Feed> {
    let mut v = vec![Feed::whole(n)];
    for k in (2..=count).map(|k| k * k) {
        let step = n.div_ceil(k).max(1);
        for flush in [false, true] {
            v.push(Feed { cuts: (1..=k).map(|i| (i * step).min(n)).collect(), flush });
        }
    }
    v
}
/// The sizes of the parallel sections with more than one item.
fn sections(data: &[u8], feed: &Feed) -> (Vec<usize>, Trace) {
    control::set_chooser(None);
    let mut c = Ctl::new(Model::Pool(1), Fault::No);
    let t = decode(data, feed, &Opts::default(), Some(&mut c));
    (c.sizes, t)
}
fn parallel_seeds(ctx: &Ctx, max_bytes: usize, max_cost: u64) -> Vec<Seed> {
    let v = seeds::all(ctx, max_bytes, max_cost, &Opts::default());
    v.into_iter().filter(|s| sections(&s.data, &Feed::whole(s.n())).0.iter().any(|n| *n > 1)).collect()
}

pub fn c05(ctx: &Ctx) {
    ctx.set_rule(
        "every execution (order of items or schedule) gives the pixels, frames, partial pictures and verdict of decoding without a runner",
    );
    ctx.assume("memory is sequentially consistent; schedules differ only at synchronisation operations (locks, atomics)");
    let seeds = parallel_seeds(ctx, ctx.pick(60_000, 400_000), ctx.pick(60_000, 400_000));
    ctx.note(format!("{} files with parallel sections of more than one item", seeds.len()));
    // --- orders
    let nf = ctx.pick(3, 5);
    let mut work = vec![];
    for (i, s) in seeds.iter().enumerate() {
        for (j, f) in feeds(s.n(), nf).into_iter().enumerate() {
            work.push((i, j, f));
        }
    }
    let budget = ctx.pick(1_500_000u64, 20_000_000);
    ctx.par(work.len(), |w| {
        let (i, j, feed) = &work[w];
        let s = &seeds[*i];
        ctx.case(&format!("order/{}/{j}", s.name), || {
            let base = decode(&s.data, feed, &Opts::default(), None);
            let (sizes, t) = sections(&s.data, feed);
            if let Some(d) = t.diff(&base) {
                return Err(format!("items in storage order: {d}"));
            }
            let mut n = 1u64;
            let mut check = |at: Option<usize>, o: &dyn Fn(usize) -> Vec<usize>, what: String| -> Result<(), String> {
                let mut r = Ordered { at, ord: o, call: 0 };
                let t = decode(&s.data, feed, &Opts::default(), Some(&mut r));
                n += 1;
                match t.diff(&base) {
                    Some(d) => Err(format!("{what}: {d}")),
                    None => Ok(()),
                }
            };
            check(None, &|n| (0..n).rev().collect(), "all items reversed".into())?;
            for k in [2, 3, 5] {
                check(None, &|n| stride(n, k), format!("items in steps of {k}"))?;
                check(None, &|n| stride(n, k).into_iter().rev().collect(), format!("items in reversed steps of {k}"))?;
            }
            // within the budget: the deviating orders of every single section
            let per = s.cost.max(30) * if feed.flush { feed.cuts.len() as u64 } else { 1 };
            let mut left = budget / per;
            'outer: for (c, sz) in sizes.iter().enumerate().filter(|(_, n)| **n > 1) {
                for o in orders(*sz) {
                    if left == 0 {
                        break 'outer;
                    }
                    left -= 1;
                    check(Some(c), &|_| o.clone(), format!("section {c} of {} items in order {o:?}", sz))?;
                }
            }
            Ok(Obs::batch(base.out.digest(), base.out.steps * n, n))
        })
    });
    // --- schedules
    let limit_us = ctx.pick(700_000u64, 40_000_000);
    let bmax = ctx.pick(3, 5);
    let mut work = vec![];
    for (i, s) in seeds.iter().enumerate() {
        if s.cost > ctx.pick(20_000, 200_000) {
            continue;
        }
        for m in [Model::Pool(2), Model::Pool(3), Model::PerItem] {
            for (j, f) in feeds(s.n(), ctx.pick(2, 3)).into_iter().enumerate() {
                if j == 0 || f.flush {
                    work.push((i, m, j, f));
                }
            }
        }
    }
    let done = std::sync::Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    ctx.par(work.len(), |w| {
        let (i, m, j, feed) = &work[w];
        let s = &seeds[*i];
        ctx.case(&format!("schedule/{}/{m:?}/{j}", s.name), || {
            let base = decode(&s.data, feed, &Opts::default(), None);
            let per = s.cost * if feed.flush { feed.cuts.len() as u64 } else { 1 };
            let limit = (limit_us / per.max(100)).max(20);
            let f = explore(&s.data, feed, *m, Fault::No, bmax, limit, &|_, t| match t.diff(&base) {
                Some(d) => Err(d),
                None => Ok(()),
            })?;
            let k = match f.complete {
                None => "schedules without preemption in part".to_string(),
                Some(usize::MAX) => "all schedules".to_string(),
                Some(b) => format!("all schedules with up to {b} preemptions"),
            };
            *done.lock().unwrap().entry(k).or_default() += 1;
            Ok(Obs::batch(f.digest, f.steps, f.execs))
        })
    });
    for (k, n) in done.into_inner().unwrap() {
        ctx.note(format!("{n} scenarios: {k}"));
    }
}

/// The verdict required of a decode under an injected failure.
fn judged(c: &Ctl, t: &Trace, base: &Trace) -> Result<(), String> {
    use std::sync::atomic::Ordering::SeqCst;
    if !c.fired.load(SeqCst) {
        return match t.diff(base) {
            Some(d) => Err(format!("no failure happened, but: {d}")),
            None => Ok(()),
        };
    }
    match &t.out.end {
        End::Error(e) if e.contains("12345") => {}
        e => return Err(format!("the runner failed ({:?}) but decoding ended with {e:?}", c.fault)),
    }
    // what was complete before the failure is what it should be
    let n = t.out.frames.len().saturating_sub(1);
    for (i, (a, b)) in t.out.frames.iter().zip(&base.out.frames).take(n).enumerate() {
        if let Some(d) = frame_diff(a, b) {
            return Err(format!("frame {i}, complete before the failure: {d}"));
        }
    }
    if t.out.frames.len() > base.out.frames.len() {
        return Err("more frames than in the file".into());
    }
    Ok(())
}
/// Decodes with a flush at every request; a flush that fails is followed by more input.
fn after_failed_flush(data: &[u8], cuts: &[usize], c: &mut Ctl) -> (Vec<FrameOut>, End, bool) {
    use jxl::api::*;
    let mut s = Script::new(data, cuts[0]);
    let mut next = 1;
    let mut frames: Vec<FrameOut> = vec![];
    let mut failed = false;
    let mut feed = |s: &mut Script| {
        if next >= cuts.len() {
            return false;
        }
        s.visible = cuts[next];
        next += 1;
        true
    };
    macro_rules! go {
        ($x:ident, $e:expr, $flush:expr) => {
            loop {
                let r = $e;
                match r {
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { fallback, size_hint }) => {
                        $x = fallback;
                        $flush(&mut $x);
                        if !feed(&mut s) {
                            return (frames, End::NeedMore(size_hint), failed);
                        }
                    }
                    Err(e) => return (frames, End::Error(format!("{e:?}")), failed),
                }
            }
        };
    }
    let mut d = JxlDecoder::new(Opts::default().to_jxl());
    let mut img = go!(d, d.process(&mut s, Some(&mut *c)), |_: &mut JxlDecoder<states::Initialized>| ());
    let f = f32_format(&img);
    img.set_pixel_format(f.clone());
    while img.has_more_frames() {
        let mut frm = go!(img, img.process(&mut s, Some(&mut *c)), |_: &mut JxlDecoder<states::WithImageInfo>| ());
        let h = frm.frame_header();
        let b = RefCell::new(Bufs::for_format(&f, h.size, 0, 0));
        frames.push(FrameOut { name: h.name, duration: h.duration, size: h.size, bufs: vec![], skipped: true });
        img = go!(
            frm,
            frm.process(&mut s, &mut b.borrow_mut().outs(), Some(&mut *c)),
            |x: &mut JxlDecoder<states::WithFrameInfo>| {
                if x.flush_pixels(&mut b.borrow_mut().outs(), Some(&mut *c)).is_err() {
                    failed = true
                }
            }
        );
        let l = frames.last_mut().unwrap();
        l.bufs = b.into_inner().data;
        l.skipped = false;
    }
    (frames, End::Done, failed)
}
pub fn c06(ctx: &Ctx) {
    ctx.set_rule(
        "a failure at any item or call, in any order or schedule, ends decoding with that error; damaged data ends it the same way with every runner",
    );
    ctx.assume("memory is sequentially consistent; schedules differ only at synchronisation operations (locks, atomics)");
    let seeds = parallel_seeds(ctx, ctx.pick(20_000, 100_000), ctx.pick(20_000, 100_000));
    ctx.note(format!("{} files with parallel sections of more than one item", seeds.len()));
    // --- injected failures, items one after the other
    let mut work = vec![];
    for (i, s) in seeds.iter().enumerate() {
        for (j, f) in feeds(s.n(), ctx.pick(3, 5)).into_iter().enumerate() {
            work.push((i, j, f));
        }
    }
    let budget = ctx.pick(1_000_000u64, 20_000_000);
    ctx.par(work.len(), |w| {
        let (i, j, feed) = &work[w];
        let s = &seeds[*i];
        let per = s.cost.max(50) * if feed.flush { feed.cuts.len() as u64 } else { 1 };
        ctx.case(&format!("fail/{}/{j}", s.name), || {
            let base = decode(&s.data, feed, &Opts::default(), None);
            let (sizes, _) = sections(&s.data, feed);
            let items: usize = sizes.iter().sum();
            let mut n = 0;
            let step = ((items as u64 * 2 + sizes.len() as u64 * 2) * per / budget).max(1) as usize;
            let mut faults: Vec<Fault> = (0..items).step_by(step).flat_map(|k| [Fault::Before(k), Fault::After(k)]).collect();
            faults.extend((0..sizes.len()).step_by(step).flat_map(|k| [Fault::Refuse(k), Fault::Late(k)]));
            for f in faults {
                let mut c = Ctl::new(Model::Pool(1), f);
                let t = decode(&s.data, feed, &Opts::default(), Some(&mut c));
                n += 1;
                judged(&c, &t, &base).map_err(|e| format!("{f:?}: {e}"))?;
                if !c.fired.load(std::sync::atomic::Ordering::SeqCst) && matches!(f, Fault::Refuse(_) | Fault::Late(_)) {
                    return Err(format!("{f:?}: the runner was not called again"));
                }
            }
            Ok(Obs::batch(base.out.digest(), base.out.steps * n, n))
        });
        if !feed.flush {
            return;
        }
        // --- the decoder goes on being used after a flush that failed
        ctx.case(&format!("flush/{}/{j}", s.name), || {
            let base = decode(&s.data, feed, &Opts::default(), None);
            let (sizes, _) = sections(&s.data, feed);
            let items: usize = sizes.iter().sum();
            let mut n = 0;
            let step = ((items as u64 + sizes.len() as u64) * per / budget).max(1) as usize;
            let mut faults: Vec<Fault> = (0..items).step_by(step).map(Fault::Before).collect();
            faults.extend((0..sizes.len()).step_by(step).map(Fault::Refuse));
            let mut hits = 0;
            for f in faults {
                let mut c = Ctl::new(Model::Pool(1), f);
                let (frames, end, failed) = after_failed_flush(&s.data, &feed.cuts, &mut c);
                n += 1;
                if !failed {
                    continue;
                }
                hits += 1;
                if end == End::Done {
                    for (i, (a, b)) in frames.iter().zip(&base.out.frames).enumerate() {
                        if let Some(d) = frame_diff(a, b) {
                            return Err(format!("{f:?} in a flush, then decoded to the end: frame {i}: {d}"));
                        }
                    }
                }
            }
            Ok(Obs::batch(hash(&(base.out.digest(), hits)), base.out.steps * n, n))
        });
    });
    // --- injected failures under schedules
    let limit_us = ctx.pick(30_000u64, 10_000_000);
    let mut work = vec![];
    for (i, s) in seeds.iter().enumerate() {
        if s.cost > ctx.pick(8_000, 50_000) {
            continue;
        }
        for m in [Model::Pool(2), Model::Pool(3), Model::PerItem] {
            work.push((i, m));
        }
    }
    ctx.par(work.len(), |w| {
        let (i, m) = work[w];
        let s = &seeds[i];
        let feed = Feed::whole(s.n());
        let (sizes, _) = sections(&s.data, &feed);
        let items: usize = sizes.iter().sum();
        ctx.case(&format!("failsched/{}/{m:?}", s.name), || {
            let base = decode(&s.data, &feed, &Opts::default(), None);
            let ks: Vec<usize> = if items <= 6 { (0..items).collect() } else { vec![0, 1, 2, items / 2, items - 2, items - 1] };
            let limit = (limit_us / s.cost.max(100) / ks.len() as u64 / 2).max(10);
            let mut r = Found { execs: 0, steps: 0, complete: None, digest: 0 };
            for k in ks {
                for f in [Fault::Before(k), Fault::After(k)] {
                    let e = explore(&s.data, &feed, m, f, ctx.pick(2, 3), limit, &|c, t| judged(c, t, &base))
                        .map_err(|e| format!("{f:?}: {e}"))?;
                    r.execs += e.execs;
                    r.steps += e.steps;
                    r.digest ^= e.digest.rotate_left(k as u32);
                }
            }
            Ok(Obs::batch(r.digest, r.steps, r.execs))
        })
    });
    // --- damaged data
    let mut work = vec![];
    for (i, s) in seeds.iter().enumerate() {
        let positions = ctx.pick(120, 1500).min((ctx.pick(600_000, 20_000_000) / s.cost) as usize).max(8).min(s.n());
        for p in 0..positions {
            // ending with the last byte, denser towards the end of the file where the groups are
            let back = p * s.n() / positions;
            work.push((i, s.n() - 1 - back));
        }
    }
    let sl = ctx.pick(6_000u64, 1_000_000);
    ctx.par(work.len(), |w| {
        let (i, at) = work[w];
        let s = &seeds[i];
        ctx.case(&format!("damage/{}/{at}", s.name), || {
            let mut n = 0;
            let mut steps = 0;
            let mut dg = 0;
            for x in [0xffu8, 0x01, 0x10] {
                let mut d = s.data.clone();
                d[at] ^= x;
                let feed = Feed::whole(d.len());
                let base = decode(&d, &feed, &Opts::default(), None);
                dg = hash(&(dg, base.out.digest()));
                if !sections(&d, &feed).0.iter().any(|n| *n > 1) {
                    continue;
                }
                let same = |t: &Trace| -> Result<(), String> {
                    if base.out.end.class() != t.out.end.class() {
                        return Err(format!("byte {at} xor {x:#x}: without a runner {:?}, here {:?}", base.out.end, t.out.end));
                    }
                    let m = if base.out.end == End::Done { usize::MAX } else { base.out.frames.len().saturating_sub(1) };
                    for (i, (a, b)) in t.out.frames.iter().zip(&base.out.frames).take(m).enumerate() {
                        if let Some(d) = frame_diff(a, b) {
                            return Err(format!("byte {at} xor {x:#x}: frame {i}: {d}"));
                        }
                    }
                    Ok(())
                };
                let o: [&dyn Fn(usize) -> Vec<usize>; 3] =
                    [&|n| (0..n).rev().collect(), &|n| stride(n, 2), &|n| stride(n, 3).into_iter().rev().collect()];
                for ord in o {
                    let mut r = Ordered { at: None, ord, call: 0 };
                    let t = decode(&d, &feed, &Opts::default(), Some(&mut r));
                    n += 1;
                    same(&t)?;
                }
                for m in [Model::Pool(2), Model::PerItem] {
                    let e = explore(&d, &feed, m, Fault::No, 1, (sl / s.cost.max(100)).max(2), &|_, t| same(t))?;
                    n += e.execs;
                    steps += e.steps;
                }
            }
            Ok(Obs::batch(dg, steps + n, n.max(1)))
        })
    });
}
