//! Exploration engine: bounded exhaustive enumeration of cases over worker threads, with
//! panic capture, hang/crash isolation (the exploration runs in a child process), replay files,
//! a known-findings file and the evidence writer.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation accounting
pub struct CountingAlloc;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
/// A single allocation above this size fails (returns null), so that a runaway size is reported
/// by the code under test instead of taking the machine down.
const MAX_SINGLE: usize = 6 << 30;
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        note(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        note(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        note(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
fn note(d: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + d;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
/// Runs `f` and returns the peak number of bytes this thread had allocated above its level at entry.
pub fn peak_alloc<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let pk = PEAK.with(|p| p.get());
    (r, (pk - base).max(0) as u64)
}

// ---------------------------------------------------------------- hashing
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E3779B97F4A7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        let mut ch = b.chunks_exact(8);
        for c in &mut ch {
            self.0 = (self.0 ^ u64::from_le_bytes(c.try_into().unwrap()))
                .wrapping_mul(0x100000001b3)
                .rotate_left(23);
        }
        for c in ch.remainder() {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = (self.0 ^ b.len() as u64).wrapping_mul(0x100000001b3).rotate_left(17);
    }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = Fnv::default();
    h.write(b);
    h.finish()
}

// ---------------------------------------------------------------- context
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one explored case reports: a digest of what was observed and the number of steps (API
/// calls / transitions) taken.
pub struct Obs {
    pub digest: u64,
    pub steps: u64,
    pub evals: u64,
}
impl Obs {
    pub fn new(digest: u64, steps: u64) -> Obs {
        Obs { digest, steps, evals: 1 }
    }
    pub fn batch(digest: u64, steps: u64, evals: u64) -> Obs {
        Obs { digest, steps, evals }
    }
}
pub type CaseResult = Result<Obs, String>;

struct Shared {
    states: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    known_hits: Vec<(String, String)>,
    notes: Vec<String>,
    groups: std::collections::BTreeMap<String, (u64, HashSet<u64>)>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub filter: Option<String>,
    pub skip: HashSet<String>,
    shared: Mutex<Shared>,
    evals: AtomicU64,
    steps: AtomicU64,
    traces: AtomicU64,
    stop: AtomicBool,
    matched: AtomicUsize,
    deadline: Instant,
    capped: AtomicBool,
    slots: Vec<AtomicU64>,
    slot_file: Option<File>,
    known: Vec<(String, String)>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
}

thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub const NTHREADS: usize = 8;
const SLOT: usize = 1024;

fn now_ms() -> u64 {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Chooses a bound by tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }
    pub fn set_rule(&self, r: &str) {
        *self.rule.lock().unwrap() = r.to_string();
    }
    pub fn assume(&self, a: &str) {
        self.assumptions.lock().unwrap().push(a.to_string());
    }
    pub fn note(&self, n: String) {
        self.shared.lock().unwrap().notes.push(n);
    }
    pub fn sample(&self, s: String) {
        let mut g = self.shared.lock().unwrap();
        if g.samples.len() < 12 {
            g.samples.push(s);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    /// True (and remembered as a cap) when the wall-clock budget of the tier is used up.
    pub fn out_of_time(&self) -> bool {
        if Instant::now() > self.deadline {
            self.capped.store(true, SeqCst);
            true
        } else {
            false
        }
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, SeqCst);
    }

    /// A case that later ones need: also runs when another case is replayed.
    pub fn case_always(&self, id: &str, f: impl FnOnce() -> CaseResult) {
        if self.filter.as_ref().is_some_and(|flt| flt != id) {
            if !self.skip.contains(id) {
                let _ = catch_unwind(AssertUnwindSafe(f));
            }
            return;
        }
        self.case_ex(id, true, f)
    }

    /// Explores one case. `id` names it (stable between runs); `f` returns Err(description) when
    /// the property is violated. A panic of the code under test is a violation.
    pub fn case(&self, id: &str, f: impl FnOnce() -> CaseResult) {
        self.case_ex(id, true, f)
    }
    pub fn case_ex(&self, id: &str, panic_is_violation: bool, f: impl FnOnce() -> CaseResult) {
        if let Some(flt) = &self.filter {
            if flt != id {
                return;
            }
            self.matched.fetch_add(1, SeqCst);
        }
        if self.skip.contains(id) || self.stopped() {
            return;
        }
        let w = WORKER.with(|w| w.get());
        if let Some(sf) = &self.slot_file {
            let mut b = id.as_bytes().to_vec();
            b.truncate(SLOT - 4);
            let mut v = (b.len() as u32).to_le_bytes().to_vec();
            v.extend(b);
            let _ = sf.write_at(&v, (w * SLOT) as u64);
        }
        self.slots[w].store(now_ms(), SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.slots[w].store(0, SeqCst);
        match r {
            Ok(Ok(o)) => {
                self.evals.fetch_add(o.evals, SeqCst);
                self.steps.fetch_add(o.steps, SeqCst);
                self.traces.fetch_add(1, SeqCst);
                let mut g = self.shared.lock().unwrap();
                g.states.insert(o.digest);
                let grp = id.split(['/', ' ']).next().unwrap_or("").to_string();
                let e = g.groups.entry(grp).or_default();
                e.0 += o.evals;
                if e.1.len() < 100_000 {
                    e.1.insert(o.digest);
                }
                let first = e.0 == o.evals;
                if first && g.samples.len() < 12 {
                    g.samples.push(id.to_string());
                }
            }
            Ok(Err(m)) => {
                self.evals.fetch_add(1, SeqCst);
                self.violation(id, &m)
            }
            Err(_) => {
                self.evals.fetch_add(1, SeqCst);
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                if m.contains("jxlmc-harness") || !panic_is_violation {
                    eprintln!("HARNESS ERROR in case {id}: {m}");
                    std::process::exit(2);
                }
                self.violation(id, &format!("panic: {m}"))
            }
        }
    }

    pub fn violation(&self, id: &str, msg: &str) {
        let mut g = self.shared.lock().unwrap();
        for (k, d) in &self.known {
            let hit = match k.strip_suffix('*') {
                Some(p) => id.starts_with(p),
                None => id == k,
            };
            if hit {
                if !g.known_hits.iter().any(|x| x.0 == *k) {
                    g.known_hits.push((k.clone(), d.clone()));
                }
                return;
            }
        }
        g.violations.push((id.to_string(), msg.to_string()));
        if g.violations.len() >= 5 {
            self.stop.store(true, SeqCst);
        }
    }

    /// Runs `f` on 0..n over the worker threads (dynamic distribution, order by index).
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (n / (NTHREADS * 64)).clamp(1, 64);
        std::thread::scope(|s| {
            for w in 0..NTHREADS.min(n.max(1)) {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .name(format!("w{w}"))
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        WORKER.with(|x| x.set(w));
                        loop {
                            let i = next.fetch_add(chunk, SeqCst);
                            if i >= n || self.stopped() {
                                break;
                            }
                            for j in i..(i + chunk).min(n) {
                                if self.stopped() {
                                    break;
                                }
                                f(j);
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }
}

// ---------------------------------------------------------------- process structure
pub type PropFn = fn(&Ctx);

/// Message and place of the last panic on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("JXLMC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} case=")) {
                if let Some((c, d)) = r.split_once(" :: ") {
                    v.push((c.trim().to_string(), d.trim().to_string()));
                }
            }
        }
    }
    v
}

fn out_dir() -> PathBuf {
    let d = root().join("out");
    let _ = std::fs::create_dir_all(&d);
    d
}

fn write_replay(prop: &str, tier: Tier, id: &str, msg: &str) -> PathBuf {
    let d = out_dir().join("replay");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{prop}-{:016x}.replay", hash(id)));
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::write(
        &p,
        format!("property={prop}\ntier={t}\ncase={id}\nwhat={}\n", msg.replace('\n', " | ")),
    );
    p
}

/// Worker: explores everything in this process and writes the result file.
pub fn worker(
    prop: &str,
    f: PropFn,
    tier: Tier,
    filter: Option<String>,
    skip: HashSet<String>,
    result: &Path,
) -> i32 {
    let t0 = Instant::now();
    let budget = std::env::var("JXLMC_BUDGET_S")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 300 } else { 780 });
    let slot_file = File::options()
        .create(true)
        .write(true)
        .truncate(true)
        .open(result.with_extension("slots"))
        .ok();
    let ctx = Ctx {
        prop: prop.into(),
        tier,
        filter: filter.clone(),
        skip,
        shared: Mutex::new(Shared {
            states: HashSet::new(),
            samples: vec![],
            violations: vec![],
            known_hits: vec![],
            notes: vec![],
            groups: Default::default(),
        }),
        evals: 0.into(),
        steps: 0.into(),
        traces: 0.into(),
        stop: false.into(),
        matched: 0.into(),
        deadline: t0 + Duration::from_secs(budget),
        capped: false.into(),
        slots: (0..NTHREADS).map(|_| AtomicU64::new(0)).collect(),
        slot_file,
        known: load_known(prop),
        rule: Mutex::new(String::new()),
        assumptions: Mutex::new(vec![]),
    };
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // A panic located in the harness itself is a harness error unless it is an assertion of it.
        let tag = if loc.starts_with("src/") { " [jxlmc-harness]" } else { "" };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}{tag}"));
        if std::env::var("JXLMC_BT").is_ok() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if !tag.is_empty() {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
    now_ms();
    let hang_ms: u64 = std::env::var("JXLMC_HANG_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(60_000);
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let (c, d) = (&ctx, &done);
        s.spawn(move || {
            while !d.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for sl in &c.slots {
                    let st = sl.load(SeqCst);
                    if st != 0 && now_ms().saturating_sub(st) > hang_ms {
                        // what was found before is enough; otherwise the parent finds the culprit
                        let found = c.shared.lock().is_ok_and(|g| !g.violations.is_empty());
                        if found && write_result(c, result) {
                            std::process::exit(0);
                        }
                        std::process::exit(97);
                    }
                }
            }
        });
        f(&ctx);
        done.store(true, SeqCst);
    });
    if filter.is_some() && ctx.matched.load(SeqCst) == 0 {
        eprintln!("no case matches the filter");
        return 2;
    }
    if write_result(&ctx, result) { 0 } else { 2 }
}
/// The result file: a simple line format for the parent.
fn write_result(ctx: &Ctx, result: &Path) -> bool {
    let g = ctx.shared.lock().unwrap();
    let mut o = String::new();
    o += &format!(
        "evals {}\nsteps {}\ntraces {}\nstates {}\ncapped {}\nstopped {}\n",
        ctx.evals.load(SeqCst),
        ctx.steps.load(SeqCst),
        ctx.traces.load(SeqCst),
        g.states.len(),
        ctx.capped.load(SeqCst),
        ctx.stopped()
    );
    for (id, m) in &g.violations {
        o += &format!("violation {}\t{}\n", esc(id), esc(m));
    }
    for (id, m) in &g.known_hits {
        o += &format!("known {}\t{}\n", esc(id), esc(m));
    }
    for s in &g.samples {
        o += &format!("sample {}\n", esc(s));
    }
    for (k, (n, d)) in &g.groups {
        o += &format!("note group {}: {} executions, {} distinct observations\n", esc(k), n, d.len());
    }
    for s in &g.notes {
        o += &format!("note {}\n", esc(s));
    }
    o += &format!("rule {}\n", esc(&ctx.rule.lock().unwrap()));
    for a in ctx.assumptions.lock().unwrap().iter() {
        o += &format!("assume {}\n", esc(a));
    }
    std::fs::write(result, o).is_ok()
}

struct WorkerEnd {
    result: Option<String>,
    /// Some(kind) when the worker was killed by a signal or hung.
    died: Option<String>,
    slots: Vec<String>,
    code: i32,
}

fn spawn_worker(prop: &str, tier: Tier, filter: Option<&str>, skip: &[String], hang_ms: u64) -> WorkerEnd {
    static N: AtomicU64 = AtomicU64::new(0);
    let res = out_dir().join(format!("result-{}-{}-{}.txt", prop, std::process::id(), N.fetch_add(1, SeqCst)));
    let _ = std::fs::remove_file(&res);
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("worker").arg(prop).arg(if tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg(&res);
    c.env("JXLMC_HANG_MS", hang_ms.to_string());
    if let Some(f) = filter {
        c.env("JXLMC_FILTER", f);
    }
    if !skip.is_empty() {
        c.env("JXLMC_SKIP", skip.join("\x1f"));
    }
    c.stdout(Stdio::inherit());
    let mut ch = c.spawn().expect("spawn worker");
    let st = ch.wait().expect("wait worker");
    use std::os::unix::process::ExitStatusExt;
    let sf = res.with_extension("slots");
    let mut slots = vec![];
    if let Ok(b) = std::fs::read(&sf) {
        for s in b.chunks(SLOT) {
            if s.len() > 4 {
                let n = u32::from_le_bytes(s[..4].try_into().unwrap()) as usize;
                if n > 0 && n + 4 <= s.len() {
                    slots.push(String::from_utf8_lossy(&s[4..4 + n]).into_owned());
                }
            }
        }
    }
    let died = if let Some(sig) = st.signal() {
        Some(format!("killed by signal {sig}"))
    } else if st.code() == Some(97) {
        Some("did not terminate".to_string())
    } else {
        None
    };
    let result = std::fs::read_to_string(&res).ok();
    let _ = std::fs::remove_file(&res);
    let _ = std::fs::remove_file(&sf);
    WorkerEnd { result, died, slots, code: st.code().unwrap_or(-1) }
}

/// Parent: runs the exploration in a child, turns crashes and hangs into confirmed violations,
/// prints the verdict, writes evidence.
pub fn parent(prop: &str, tier: Tier, level: &str) -> i32 {
    let t0 = Instant::now();
    let mut violations: Vec<(String, String)> = vec![];
    let mut known_crash: Vec<(String, String)> = vec![];
    let mut skip: Vec<String> = vec![];
    let known = load_known(prop);
    let mut last = None;
    for round in 0..4 {
        let e = spawn_worker(prop, tier, None, &skip, 60_000);
        if e.died.is_none() {
            last = Some(e);
            break;
        }
        let kind = e.died.clone().unwrap();
        eprintln!("worker {kind}; re-running the cases that were in progress again");
        let mut found = false;
        let ids: Vec<&String> = e.slots.iter().filter(|i| !skip.contains(i)).collect();
        let ends: Vec<WorkerEnd> = std::thread::scope(|s| {
            let h: Vec<_> = ids.iter().map(|id| s.spawn(move || spawn_worker(prop, tier, Some(id), &[], 90_000))).collect();
            h.into_iter().map(|h| h.join().expect("worker thread")).collect()
        });
        for (id, r) in ids.iter().map(|i| i.to_string()).zip(ends).collect::<Vec<_>>() {
            if let Some(k) = r.died {
                found = true;
                skip.push(id.clone());
                let kn = known.iter().find(|(k, _)| match k.strip_suffix('*') {
                    Some(p) => id.starts_with(p),
                    None => id == *k,
                });
                match kn {
                    Some(x) => known_crash.push(x.clone()),
                    None => violations.push((id, format!("process {k}"))),
                }
            }
        }
        if !found {
            eprintln!("HARNESS ERROR: worker {kind}, but no single case reproduces it");
            return 2;
        }
        if !violations.is_empty() || round == 3 {
            break;
        }
    }
    let mut ev = std::collections::HashMap::<String, u64>::new();
    let mut samples = vec![];
    let mut notes = vec![];
    let mut rule = String::new();
    let mut assume = vec![];
    let mut capped = false;
    let mut knowns: Vec<(String, String)> = known_crash;
    if let Some(e) = &last {
        let Some(r) = &e.result else {
            eprintln!("HARNESS ERROR: worker ended with code {} and no result", e.code);
            return 2;
        };
        if e.code != 0 {
            eprintln!("HARNESS ERROR: worker ended with code {}", e.code);
            return 2;
        }
        for l in r.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evals" | "steps" | "traces" | "states" => {
                    ev.insert(k.into(), v.parse().unwrap_or(0));
                }
                "capped" => capped = v == "true",
                "violation" => {
                    let (a, b) = v.split_once('\t').unwrap_or((v, ""));
                    violations.push((a.into(), b.into()));
                }
                "known" => {
                    let (a, b) = v.split_once('\t').unwrap_or((v, ""));
                    knowns.push((a.into(), b.into()));
                }
                "sample" => samples.push(v.to_string()),
                "note" => notes.push(v.to_string()),
                "rule" => rule = v.to_string(),
                "assume" => assume.push(v.to_string()),
                _ => {}
            }
        }
    }
    for (id, d) in &knowns {
        println!("KNOWN-FINDING: property={prop} {id}: {d}");
    }
    violations.sort();
    for (id, m) in &violations {
        let p = write_replay(prop, tier, id, m);
        println!("VIOLATION property={prop} replay={}", p.display());
        println!("  case: {id}");
        println!("  what: {m}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let g = |k: &str| ev.get(k).copied().unwrap_or(0);
    let q = |v: &Vec<String>| {
        v.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(", ")
    };
    if samples.is_empty() {
        samples.push("(none)".into());
    }
    let tn = if tier == Tier::Quick { "quick" } else { "thorough" };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let js = format!(
        "{{\n \"property\": \"{prop}\",\n \"tier\": \"{tn}\",\n \"seed\": {seed},\n \"level\": \"{level}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"rule\": \"{}\",\n  \"explored\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        g("evals"), g("states"), g("states"), g("steps"), g("traces"),
        !capped && violations.is_empty(), rule, q(&notes), q(&samples), q(&assume), wall, violations.len()
    );
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if std::fs::write(evd.join(format!("{prop}.json")), js).is_err() {
        eprintln!("HARNESS ERROR: cannot write evidence");
        return 2;
    }
    println!(
        "{prop} [{tn}] executions={} distinct={} transitions={} capped={} wall={:.1}s violations={}",
        g("evals"), g("states"), g("steps"), capped, wall, violations.len()
    );
    if violations.is_empty() {
        if g("evals") == 0 {
            eprintln!("HARNESS ERROR: nothing was explored");
            return 2;
        }
        0
    } else {
        1
    }
}

pub fn replay(file: &str, _props: &[(&'static str, &'static str, PropFn)]) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        s.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|x| x.to_string())).unwrap_or_default()
    };
    let (prop, tier, case) = (get("property"), get("tier"), get("case"));
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let e = spawn_worker(&prop, tier, Some(&case), &[], 90_000);
    if let Some(k) = e.died {
        println!("VIOLATION property={prop} replay={file}\n  case: {case}\n  what: process {k}");
        return 1;
    }
    let Some(r) = e.result else { return 2 };
    for l in r.lines() {
        if let Some(v) = l.strip_prefix("violation ") {
            println!("VIOLATION property={prop} replay={file}\n  {v}");
            return 1;
        }
    }
    println!("replayed, no violation: property={prop} case={case}");
    0
}
