//! Generic driver: runs a sub-check (proptest strategy + oracle) for a fixed
//! number of cases over worker threads, shrinks failures, writes a replay file.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

pub type Check = Result<(), String>;

/// Fail a check with a message.
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if l != r { return Err(format!("{}: {:?} != {:?}", format!($($a)*), l, r)); }
    }};
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cases: u64,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    mark: bool,
    pub shrinking: bool,
}
impl Stats {
    /// Count something that happened in this case.
    pub fn label(&mut self, l: &str) {
        if self.shrinking { return; }
        if let Some(v) = self.labels.get_mut(l) { *v += 1 } else { self.labels.insert(l.to_string(), 1); }
    }
    /// This case satisfies the property's stated non-triviality rule.
    pub fn nontrivial(&mut self) { self.mark = true; }
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        for (k, v) in o.labels { *self.labels.entry(k).or_default() += v; }
        self.nontrivial.extend(o.nontrivial);
        self.samples.extend(o.samples);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static FIRST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
type Emergency = Box<dyn Fn(&str, &str, serde_json::Value) + Send + Sync>;
static EMERGENCY: std::sync::OnceLock<Emergency> = std::sync::OnceLock::new();
static EMERGENCY_LOCK: Mutex<()> = Mutex::new(());
/// What to do when a case is about to abort the process (a panic while a
/// panic unwinds): report it as a failure of that case and end the run.
pub fn on_abort(f: Emergency) { let _ = EMERGENCY.set(f); }
/// The case each worker thread is running: sub-check, value, its serialiser, start time.
type Slot = (String, usize, fn(usize) -> serde_json::Value, std::time::Instant);
static SLOTS: Mutex<BTreeMap<u64, Slot>> = Mutex::new(BTreeMap::new());
static NEXT_SLOT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
thread_local! { static MY_SLOT: u64 = NEXT_SLOT.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
fn ser<V: Serialize>(p: usize) -> serde_json::Value {
    // the value outlives the test call it was registered for
    serde_json::to_value(unsafe { &*(p as *const V) }).unwrap()
}
fn set_current<V: Serialize + 'static>(sub: &str, v: &V) {
    let e = (sub.to_string(), v as *const V as usize, ser::<V> as fn(usize) -> serde_json::Value, std::time::Instant::now());
    MY_SLOT.with(|s| SLOTS.lock().unwrap().insert(*s, e));
}
fn clear_current() { MY_SLOT.with(|s| SLOTS.lock().unwrap().remove(s)); }
/// A single case takes milliseconds; one that runs this long does not end.
const HANG_SECS: u64 = 150;
pub fn hang_monitor() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(5));
        let hung = { SLOTS.lock().unwrap().values().find(|e| e.3.elapsed().as_secs() > HANG_SECS).cloned() };
        if let Some((sub, p, f, _)) = hung && let Some(e) = EMERGENCY.get() {
            let _g = EMERGENCY_LOCK.lock();
            e(&sub, &format!("a single case did not end within {HANG_SECS} s"), f(p));
        }
    });
}

static OTHER_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("panic: {msg} at {loc}");
        if std::env::var_os("VH_DEBUG").is_some() { eprintln!("{m}"); if std::env::var_os("VH_BT").is_some() { eprintln!("{}", std::backtrace::Backtrace::force_capture()) } }
        if m.contains("panic in a destructor during cleanup") || m.contains("panic in a function that cannot unwind") {
            let _g = EMERGENCY_LOCK.lock();
            let first = FIRST_PANIC.with(|p| p.borrow().clone()).unwrap_or_else(|| m.clone());
            let cur = MY_SLOT.with(|s| SLOTS.lock().unwrap().get(s).cloned());
            if let (Some((sub, p, f, _)), Some(e)) = (cur, EMERGENCY.get()) { e(&sub, &format!("process aborted ({m}) after {first}"), f(p)); }
        }
        FIRST_PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_none() { *p = Some(m.clone()) } });
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m.clone()));
        if let Ok(mut v) = OTHER_PANICS.lock() && v.len() < 100 { v.push(m) }
    }));
}

pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    FIRST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub struct Violation { pub sub: String, pub message: String, pub value: serde_json::Value, pub debug: String }

pub enum Mode { Run, Replay { sub: String, value: serde_json::Value } }

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub mode: Mode,
    pub threads: usize,
    pub scale: f64,
    pub stats: BTreeMap<String, Stats>,
    pub violations: Vec<Violation>,
    pub replay_result: Option<Check>,
    pub only: Option<String>,
}

impl Ctx {
    pub fn cases(&self, quick: u32, thorough: u32) -> u32 {
        let n = if self.thorough { thorough } else { quick };
        ((n as f64 * self.scale) as u32).max(8)
    }

    /// Run one sub-check. `mk` builds the strategy (one per worker thread).
    pub fn sub<S, V, F>(&mut self, name: &str, cases: u32, mk: impl Fn() -> S + Sync, test: F)
    where
        S: Strategy<Value = V>,
        V: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
        F: Fn(&V, &mut Stats) -> Check + Sync,
    {
        if let Mode::Replay { sub, value } = &self.mode {
            if sub != name { return; }
            let v: V = match serde_json::from_value(value.clone()) {
                Ok(v) => v,
                Err(e) => { eprintln!("replay value does not parse: {e}"); std::process::exit(2) }
            };
            let mut st = Stats::default();
            set_current(name, &v);
            self.replay_result = Some(guarded(|| test(&v, &mut st)));
            clear_current();
            return;
        }
        if let Some(o) = &self.only && o != name { return; }
        if !self.violations.is_empty() { return; }
        let n = self.threads as u32;
        let results: Mutex<Vec<(usize, Stats, Option<(V, String)>)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for t in 0..n {
                let results = &results;
                let test = &test;
                let mk = &mk;
                let my_cases = cases / n + if t < cases % n { 1 } else { 0 };
                let seed = hash_str(&format!("{}/{}/{}/{}", self.seed, self.id, name, t));
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let r = run_worker(name, &mk(), my_cases, seed, test);
                    results.lock().unwrap().push((t as usize, r.0, r.1));
                }).unwrap();
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        let mut total = Stats::default();
        let mut found = None;
        for (_, st, f) in rs {
            total.merge(st);
            if found.is_none() { found = f; }
        }
        self.stats.insert(name.to_string(), total);
        if let Some((v, msg)) = found {
            self.violations.push(Violation {
                sub: name.to_string(), message: msg,
                value: serde_json::to_value(&v).unwrap(),
                debug: format!("{v:?}"),
            });
        }
    }
}

fn run_worker<S, V, F>(name: &str, strat: &S, cases: u32, seed: u64, test: &F) -> (Stats, Option<(V, String)>)
where
    S: Strategy<Value = V>,
    V: Debug + Clone + Serialize + Send + 'static,
    F: Fn(&V, &mut Stats) -> Check,
{
    let cfg = Config {
        cases, failure_persistence: None, rng_seed: RngSeed::Fixed(seed),
        max_shrink_iters: 6000, max_shrink_time: 45_000, max_global_rejects: 1 << 20,
        max_local_rejects: 1 << 20, verbose: 0, ..Config::default()
    };
    let st = RefCell::new(Stats::default());
    let failed = RefCell::new(false);
    let mut runner = TestRunner::new(cfg);
    let r = runner.run(strat, |v| {
        let mut s = st.borrow_mut();
        s.shrinking = *failed.borrow();
        if !s.shrinking { s.cases += 1; }
        s.mark = false;
        set_current(name, &v);
        let res = guarded(|| test(&v, &mut s));
        clear_current();
        if !s.shrinking && s.mark {
            let d = format!("{v:?}");
            let fresh = s.nontrivial.insert(hash_str(&d));
            if fresh && s.samples.len() < 2 && d.len() > 40 {
                s.samples.push(d.chars().take(900).collect());
            }
        }
        if let (Err(m), true) = (&res, std::env::var_os("VH_TRIAGE").is_some()) {
            triage(m, &format!("{v:?}"));
            return Ok(());
        }
        match res {
            Ok(()) => Ok(()),
            Err(m) => { *failed.borrow_mut() = true; Err(TestCaseError::fail(m)) }
        }
    });
    let out = match r {
        Ok(()) => None,
        Err(TestError::Fail(_, v)) => {
            let mut s = Stats { shrinking: true, ..Stats::default() };
            let m = guarded(|| test(&v, &mut s)).err().unwrap_or_else(|| "did not fail again on re-run".into());
            Some((v, m))
        }
        Err(TestError::Abort(r)) => { eprintln!("generator aborted: {r}"); std::process::exit(2) }
    };
    (st.into_inner(), out)
}

/// Draw one value from a strategy with a fixed seed (used by schedule checks).
#[allow(dead_code)]
pub fn draw<S: Strategy>(s: &S, seed: u64) -> S::Value {
    let cfg = Config { rng_seed: RngSeed::Fixed(seed), failure_persistence: None, ..Config::default() };
    let mut r = TestRunner::new(cfg);
    s.new_tree(&mut r).unwrap().current()
}

static TRIAGE: Mutex<BTreeMap<String, (u64, String, String)>> = Mutex::new(BTreeMap::new());
fn triage(m: &str, v: &str) {
    let mut k = String::new();
    let mut q = false;
    for c in m.chars() {
        if c == '"' { q = !q; if q { k.push('Q') } continue; }
        if q { continue; }
        if c.is_ascii_digit() { if !k.ends_with('#') { k.push('#') } } else { k.push(c) }
    }
    let k: String = if k.starts_with("after op") { let op: String = k.chars().skip(11).take_while(|c| c.is_alphabetic()).collect(); format!("{op}: {}", k.rsplit("): ").next().unwrap_or("")) } else { k };
    let k: String = k.chars().take(110).collect();
    let mut t = TRIAGE.lock().unwrap();
    let e = t.entry(k).or_insert((0, v.to_string(), m.to_string()));
    e.0 += 1;
    if v.len() < e.1.len() { e.1 = v.to_string(); e.2 = m.to_string(); }
}
pub fn triage_report() {
    let t = TRIAGE.lock().unwrap();
    let mut v: Vec<_> = t.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1.0));
    for (k, (n, ex, m)) in v.iter().take(14) { println!("{n:6} {k}\n         e.g. {}\n         => {}", ex.chars().take(300).collect::<String>(), m.chars().take(400).collect::<String>()); }
}

static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Strict mode (replay of listed findings): oracles do not excuse recorded defects.
pub fn set_strict(b: bool) { STRICT.store(b, std::sync::atomic::Ordering::Relaxed) }
pub fn strict() -> bool { STRICT.load(std::sync::atomic::Ordering::Relaxed) }

/// Delta-debugging on the serialised value, for cases that abort the process:
/// `fails` runs a candidate in a subprocess.
pub fn json_shrink(v: &serde_json::Value, fails: &dyn Fn(&serde_json::Value) -> bool, secs: u64) -> serde_json::Value {
    use serde_json::Value;
    let t0 = std::time::Instant::now();
    fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        out.push(at.clone());
        match v {
            Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push(i.to_string()); paths(x, at, out); at.pop(); },
            Value::Object(o) => for (k, x) in o { at.push(k.clone()); paths(x, at, out); at.pop(); },
            _ => {}
        }
    }
    fn get<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
        let mut v = v;
        for k in p { v = match v { Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, Value::Object(o) => o.get_mut(k)?, _ => return None } }
        Some(v)
    }
    let mut best = v.clone();
    loop {
        let mut improved = false;
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        'p: for p in ps {
            loop {
                if t0.elapsed().as_secs() > secs { return best }
                let Some(cur) = get(&mut best, &p).map(|c| c.clone()) else { continue 'p };
                let cands: Vec<Value> = match &cur {
                    Value::Array(a) => {
                        let mut c = vec![];
                        if a.len() > 3 { c.push(Value::Array(a[..a.len() / 2].to_vec())); c.push(Value::Array(a[a.len() / 2..].to_vec())); }
                        for i in 0..a.len() { let mut b = a.clone(); b.remove(i); c.push(Value::Array(b)) }
                        c
                    }
                    Value::String(s) if !s.is_empty() => {
                        let ch: Vec<char> = s.chars().collect();
                        let mut c = vec![Value::String(ch[..ch.len() / 2].iter().collect())];
                        if ch.len() < 30 { for i in 0..ch.len() { let mut d = ch.clone(); d.remove(i); c.push(Value::String(d.into_iter().collect())) } }
                        c
                    }
                    Value::Number(n) if n.as_u64().is_some_and(|n| n > 0) => { let n = n.as_u64().unwrap(); let mut c = vec![Value::from(0u64)]; if n > 8 { c.push(Value::from(n / 2)); c.push(Value::from(n % 8)) } c }
                    _ => vec![],
                };
                let mut hit = false;
                for c in cands {
                    if t0.elapsed().as_secs() > secs { return best }
                    let mut t = best.clone();
                    *get(&mut t, &p).unwrap() = c;
                    if fails(&t) { best = t; hit = true; improved = true; break }
                }
                if !hit { break }
            }
        }
        if !improved { return best }
    }
}
