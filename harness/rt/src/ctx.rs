use spec::ast::json_str;
use spec::space::{Case, Tier};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static TICK: AtomicU64 = AtomicU64::new(0);
static CASE: AtomicU64 = AtomicU64::new(0);
static WHAT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

static INSIDE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn tick() { TICK.fetch_add(1, Relaxed); }

/// A single operation which makes no progress for this long is a violation of its own. Time spent
/// between operations (enumerating values) is given more room.
pub fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut n) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Relaxed);
            if t == last { n += 1 } else { n = 0; last = t }
            if n > if INSIDE.load(Relaxed) { 60 } else { 1000 } {
                let what = WHAT.lock().map(|w| w.clone()).unwrap_or_default();
                println!("{{\"k\":\"viol\",\"case\":{},\"key\":\"hang\",\"what\":{}}}", CASE.load(Relaxed), json_str(&format!("operation does not terminate: {}", what)));
                println!("{{\"k\":\"done\"}}");
                std::process::exit(0);
            }
        }
    });
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    case: Cell<usize>,
    label: RefCell<String>,
    pub states: Cell<u64>,
    pub transitions: Cell<u64>,
    pub execs: Cell<u64>,
    pub nontrivial: Cell<u64>,
    fails: RefCell<HashMap<String, u32>>,
    nfail: Cell<u32>,
    samples: RefCell<Vec<String>>,
    trace: bool,
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier) -> Ctx {
        Ctx {
            prop: prop.into(), tier, case: Cell::new(0), label: RefCell::default(), states: Cell::new(0), transitions: Cell::new(0), execs: Cell::new(0),
            nontrivial: Cell::new(0), fails: RefCell::default(), nfail: Cell::new(0), samples: RefCell::default(), trace: std::env::var_os("VMC_TRACE").is_some(),
        }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn begin(&self, c: &Case) {
        self.case.set(c.id);
        *self.label.borrow_mut() = c.label.clone();
        CASE.store(c.id as u64, Relaxed);
        eprintln!("case {}", c.id);
        self.fails.borrow_mut().clear();
    }
    pub fn begin_at(&self, id: usize) {
        self.case.set(id);
        CASE.store(id as u64, Relaxed);
        eprintln!("case {}", id);
        self.fails.borrow_mut().clear();
    }
    pub fn label(&self) -> String { self.label.borrow().clone() }
    pub fn state(&self) { self.states.set(self.states.get() + 1); }
    pub fn trans(&self) { self.transitions.set(self.transitions.get() + 1); }
    pub fn exec(&self) { self.execs.set(self.execs.get() + 1); }
    pub fn nontriv(&self) { self.nontrivial.set(self.nontrivial.get() + 1); }

    /// Runs code under check; Err is a panic message.
    pub fn call<T>(&self, what: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
        tick();
        self.exec();
        if self.trace { eprintln!("op {}", what()); *WHAT.lock().unwrap() = what(); }
        INSIDE.store(true, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        INSIDE.store(false, Relaxed);
        r.map_err(|e| {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            format!("panic: {}", m)
        })
    }

    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.borrow_mut();
        if s.len() < 3 { let t = f(); s.push(t.chars().take(600).collect()); }
    }

    /// `key`: stable identification of the failing situation within this case.
    pub fn fail(&self, key: &str, what: impl FnOnce() -> String) {
        let mut f = self.fails.borrow_mut();
        let n = f.entry(key.to_string()).or_insert(0);
        *n += 1;
        if *n > 3 || self.nfail.get() > 400 { return; }
        self.nfail.set(self.nfail.get() + 1);
        let w: String = what().chars().take(1500).collect();
        println!("{{\"k\":\"viol\",\"case\":{},\"key\":{},\"what\":{}}}", self.case.get(), json_str(key), json_str(&w));
    }

    pub fn finish(&self) {
        println!("{{\"k\":\"stat\",\"states\":{},\"transitions\":{},\"execs\":{},\"nontrivial\":{},\"samples\":[{}]}}",
            self.states.get(), self.transitions.get(), self.execs.get(), self.nontrivial.get(),
            self.samples.borrow().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        println!("{{\"k\":\"done\"}}");
    }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join("") }
