//! Explicit, exhaustive exploration of the real code: the engine shared by every check.
//!
//! A *configuration* is a body `Fn()` that drives the real library code and takes every
//! nondeterministic decision (operation, argument, which task is woken, what the environment
//! answers) through [`choose`].  The engine runs the body once per reachable sequence of
//! choices: depth-first, no state merging, no sampling.  Bounds live in the bodies.
#![allow(clippy::type_complexity)]

use std::{
    cell::{Cell, RefCell},
    collections::HashSet,
    hash::{BuildHasherDefault, Hash, Hasher},
    io::Write,
    os::unix::process::ExitStatusExt,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    time::{Duration, Instant},
};

pub mod corpus;
pub mod dom;
#[cfg(feature = "sched")]
pub mod fib;
pub mod host;
pub mod json;
pub mod prog;
pub mod sel;
pub mod tok;

/// Own the one source of randomness inside std (hash map seeds): `getrandom` answers with bytes
/// derived from a seed that a configuration may choose.  Without this, hash map iteration order
/// would differ between an execution and its replay.
static HASH_SEED: AtomicU64 = AtomicU64::new(1);
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SEED.try_with(|s| s.get()).unwrap_or(0) ^ HASH_SEED.load(Ordering::Relaxed);
    let mut x = s.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 24) as u8 };
    }
    len as isize
}
thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
}

/// Identity hasher for sets of already-hashed values.
#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-style deterministic hasher used for state digests.
#[derive(Clone)]
pub struct Fx(u64);
impl Default for Fx {
    fn default() -> Self {
        Fx(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub fn fx(h: &(impl Hash + ?Sized)) -> u64 {
    let mut f = Fx::default();
    h.hash(&mut f);
    f.finish()
}

/// The decisions and observations of one execution.
pub struct Ch {
    prefix: Vec<u32>,
    /// (choice, number of alternatives still allowed at this point)
    trace: Vec<(u32, u32)>,
    budget: u32,
    digest: Fx,
    steps: u64,
    states: Vec<u64>,
    outcome: u64,
    verbose: bool,
    notes: Vec<String>,
    salt: u64,
}

impl Ch {
    fn new(prefix: Vec<u32>, budget: u32, verbose: bool, salt: u64) -> Self {
        Ch {
            prefix,
            trace: Vec::new(),
            budget,
            digest: Fx::default(),
            steps: 0,
            states: Vec::new(),
            outcome: 0,
            verbose,
            notes: Vec::new(),
            salt,
        }
    }
}

thread_local! {
    static CH: RefCell<Option<Ch>> = const { RefCell::new(None) };
}
fn ch<R>(f: impl FnOnce(&mut Ch) -> R) -> R {
    CH.with(|c| match &mut *c.borrow_mut() {
        Some(c) => f(c),
        None => {
            eprintln!("choice outside an execution");
            std::process::exit(2)
        }
    })
}

/// Pick one of `n` alternatives; all of them are explored.
pub fn choose(n: usize) -> usize {
    if n == 0 {
        harness_bug("choose(0)");
    }
    if n == 1 {
        return 0;
    }
    let r = ch(|c| {
        let i = c.trace.len();
        let v = if i < c.prefix.len() {
            let v = c.prefix[i];
            if v as usize >= n {
                return Err((v, i));
            }
            v
        } else {
            0
        };
        c.trace.push((v, n as u32));
        Ok(v as usize)
    });
    match r {
        Ok(v) => v,
        Err((v, i)) => divergence(format!("choice {v} of {n} at point {i}")),
    }
}
pub fn flip() -> bool {
    choose(2) == 1
}
/// Pick one of `n` alternatives, where alternatives other than 0 are *deviations* and the number
/// of deviations in one execution is bounded (guide: bound deviations, not depth).
pub fn deviate(n: usize) -> usize {
    if n <= 1 || ch(|c| c.budget) == 0 {
        return 0;
    }
    let v = choose(n);
    if v != 0 {
        ch(|c| c.budget -= 1);
    }
    v
}
pub fn of<T>(items: &[T]) -> &T {
    &items[choose(items.len())]
}
/// Everything that `f` can return, over all sequences of choices (for inputs that have to be
/// prepared together before the exploration, such as programs that are compiled).
pub fn enumerate<T>(mut f: impl FnMut() -> T) -> Vec<T> {
    let mut out = vec![];
    let mut prefix: Vec<u32> = vec![];
    loop {
        CH.with(|c| *c.borrow_mut() = Some(Ch::new(prefix, u32::MAX, false, 0)));
        out.push(f());
        let mut t = CH.with(|c| c.borrow_mut().take().unwrap()).trace;
        while t.last().is_some_and(|(v, n)| v + 1 == *n) {
            t.pop();
        }
        let Some(l) = t.last_mut() else { return out };
        l.0 += 1;
        prefix = t.into_iter().map(|(v, _)| v).collect();
    }
}
/// Narration for replays (not evaluated during exploration).
pub fn note(f: impl FnOnce() -> String) {
    if ch(|c| c.verbose) {
        let s = f();
        NOTES.with(|n| n.borrow_mut().push(s.clone()));
        ch(|c| c.notes.push(s));
    }
}
/// One transition was made and its oracle checked; `s` is the observable state reached.
pub fn step(s: &(impl Hash + ?Sized)) {
    let h = fx(s);
    ch(|c| {
        let h = h ^ c.salt;
        c.steps += 1;
        c.states.push(h);
        c.digest.write_u64(h);
    })
}
/// What distinguishes this execution's result.
pub fn outcome(s: &(impl Hash + ?Sized)) {
    let h = fx(s);
    ch(|c| {
        c.outcome = h ^ c.salt;
        let o = c.outcome;
        c.digest.write_u64(o);
    })
}

thread_local! {
    static NOTES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static IN_EXEC: Cell<bool> = const { Cell::new(false) };
    static EXPECT_PANIC: Cell<bool> = const { Cell::new(false) };
    static REPORT: RefCell<Option<Reporter>> = const { RefCell::new(None) };
}
type Reporter = Box<dyn Fn(Failure)>;

#[derive(Clone, Debug)]
pub enum Failure {
    Violation(String),
    Harness(String),
}

/// Report a violation of the property by the execution running on this thread. Never returns:
/// the thread is parked (not unwound) so that no destructor can run on a broken state.
pub fn fail(msg: impl Into<String>) -> ! {
    report(Failure::Violation(msg.into()))
}
/// The harness itself is wrong (error exit, never a verdict).
pub fn harness_bug(msg: impl Into<String>) -> ! {
    report(Failure::Harness(msg.into()))
}
fn divergence(msg: String) -> ! {
    report(Failure::Violation(format!("the same operations went differently when repeated: {msg}")))
}
fn report(f: Failure) -> ! {
    let has = REPORT.with(|r| {
        if let Some(r) = &*r.borrow() {
            r(f.clone());
            true
        } else {
            false
        }
    });
    if !has {
        eprintln!("fatal outside an execution: {f:?}");
        std::process::exit(2);
    }
    loop {
        std::thread::park();
    }
}

/// Check with a lazily built message.
#[macro_export]
macro_rules! ck {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { $crate::fail(format!($($arg)*)) }
    };
}

/// Run code that is documented to panic; returns whether it did.
pub fn expect_panic<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    EXPECT_PANIC.with(|e| e.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ());
    EXPECT_PANIC.with(|e| e.set(false));
    r
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if EXPECT_PANIC.with(|e| e.get()) {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "Box<dyn Any>".into());
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if IN_EXEC.with(|e| e.get()) {
            if loc.starts_with("src/") && !msg.contains("resumed after completion") {
                // On the unchanged tree none of the executions gets here (they are all run), so it
                // is the code under test that led it to a state it should not be in.
                fail(format!("the library led the driver into a state that cannot be: {loc}: {msg}"));
            }
            fail(format!("panicked at {loc}: {msg}"));
        }
        eprintln!("engine panicked at {loc}: {msg}");
        std::process::exit(2);
    }));
}

/// Where a worker publishes what it is running, for the watchdog and the crash supervisor.
struct Slot {
    map: *mut u8,
    started_ms: AtomicU64,
}
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
const SLOT_SIZE: usize = 4096;
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
impl Slot {
    /// cfg+1, len, choices...
    fn publish(&self, cfg: usize, prefix: &[u32]) {
        let n = prefix.len().min(SLOT_SIZE / 4 - 2);
        unsafe {
            let p = self.map as *mut u32;
            p.write_volatile(0);
            p.add(1).write_volatile(n as u32);
            for (i, c) in prefix[..n].iter().enumerate() {
                p.add(2 + i).write_volatile(*c);
            }
            p.write_volatile(cfg as u32 + 1);
        }
    }
    fn clear(&self) {
        unsafe { (self.map as *mut u32).write_volatile(0) }
    }
}

pub struct Cfg {
    pub name: String,
    pub body: Arc<dyn Fn() + Send + Sync>,
    /// run each execution on its own new thread (isolates the library's thread locals)
    pub fresh: bool,
    /// deviation budget for [`Ch::deviate`]
    pub budget: u32,
    pub hash_seed: u64,
}
impl Cfg {
    pub fn new(name: impl Into<String>, body: impl Fn() + Send + Sync + 'static) -> Self {
        Cfg { name: name.into(), body: Arc::new(body), fresh: false, budget: u32::MAX, hash_seed: 0 }
    }
    pub fn fresh(mut self) -> Self {
        self.fresh = true;
        self
    }
    pub fn budget(mut self, b: u32) -> Self {
        self.budget = b;
        self
    }
    pub fn seed(mut self, s: u64) -> Self {
        self.hash_seed = s;
        self
    }
}

struct ExecResult {
    trace: Vec<(u32, u32)>,
    steps: u64,
    states: Vec<u64>,
    outcome: u64,
    digest: u64,
    notes: Vec<String>,
}

fn exec(cfg: &Cfg, idx: usize, prefix: Vec<u32>, verbose: bool, slot: Option<Arc<Slot>>, rep: Arc<dyn Fn(Failure, Vec<String>) + Send + Sync>) -> ExecResult {
    let salt = fx(cfg.name.as_str());
    let body = cfg.body.clone();
    let budget = cfg.budget;
    let seed = cfg.hash_seed;
    if let Some(s) = &slot {
        s.publish(idx, &prefix);
        s.started_ms.store(now_ms(), Ordering::Relaxed);
    }
    let slot2 = slot.clone();
    let go = move || {
        SEED.with(|s| s.set(seed));
        let rep2 = rep.clone();
        REPORT.with(|r| {
            *r.borrow_mut() = Some(Box::new(move |f| {
                let notes = NOTES.with(|n| n.borrow().clone());
                rep2(f, notes)
            }))
        });
        NOTES.with(|n| n.borrow_mut().clear());
        IN_EXEC.with(|e| e.set(true));
        let plen = prefix.len();
        CH.with(|c| *c.borrow_mut() = Some(Ch::new(prefix, budget, verbose, salt)));
        drop(slot2);
        body();
        let ch = CH.with(|c| c.borrow_mut().take().unwrap());
        if ch.trace.len() < plen {
            divergence(format!("prefix of {plen} choices, only {} taken", ch.trace.len()));
        }
        IN_EXEC.with(|e| e.set(false));
        REPORT.with(|r| *r.borrow_mut() = None);
        let digest = ch.digest.finish();
        ExecResult { trace: ch.trace, steps: ch.steps, states: ch.states, outcome: ch.outcome, digest, notes: ch.notes }
    };
    let r = if cfg.fresh {
        match std::thread::Builder::new().stack_size(512 * 1024).spawn(go) {
            Ok(h) => match h.join() {
                Ok(r) => r,
                Err(_) => loop {
                    std::thread::park()
                },
            },
            Err(e) => {
                eprintln!("cannot spawn: {e}");
                std::process::exit(2)
            }
        }
    } else {
        go()
    };
    if let Some(s) = &slot {
        s.started_ms.store(0, Ordering::Relaxed);
        s.clear();
    }
    r
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize)>,
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
}

#[derive(Default)]
struct Stats {
    execs: u64,
    steps: u64,
    choice_points: u64,
    max_depth: usize,
    states: U64Set,
    outcomes: U64Set,
    replays: u64,
    samples: Vec<Vec<u32>>,
}

struct FailRec {
    cfg: usize,
    prefix: Vec<u32>,
    failure: Failure,
    notes: Vec<String>,
}

pub struct Check {
    pub property: String,
    pub tier: String,
    pub cfgs: Vec<Cfg>,
    pub assumptions: Vec<String>,
    pub rule: String,
}

pub fn thorough() -> bool {
    std::env::args().nth(2).as_deref() == Some("thorough")
}
pub fn property() -> String {
    std::env::args().nth(1).unwrap_or_default()
}
fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// `bin PROPERTY quick|thorough` or `bin PROPERTY quick|thorough --replay FILE`.
pub fn run(check: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        replay_file(&check, &args[i + 1]);
    }
    if let Some(i) = args.iter().position(|a| a == "--probe") {
        // re-run one prefix after a crash: cfg, choices
        install_hook();
        let cfg: usize = args[i + 1].parse().unwrap();
        let prefix: Vec<u32> = args[i + 2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        run_one(&check, cfg, prefix);
        std::process::exit(0);
    }
    if std::env::var_os("MC_CHILD").is_none() {
        supervise(&check);
    }
    install_hook();
    explore(check)
}

fn run_one(check: &Check, cfg: usize, prefix: Vec<u32>) -> (Option<(Failure, Vec<String>)>, Option<ExecResult>) {
    let slotres: Arc<(Mutex<Option<(Failure, Vec<String>)>>, Condvar, AtomicBool)> =
        Arc::new((Mutex::new(None), Condvar::new(), AtomicBool::new(false)));
    let s2 = slotres.clone();
    let c = &check.cfgs[cfg];
    let c2 = Cfg { name: c.name.clone(), body: c.body.clone(), fresh: false, budget: c.budget, hash_seed: c.hash_seed };
    let (tx, rx) = std::sync::mpsc::channel();
    let tx2 = tx.clone();
    std::thread::Builder::new()
        .stack_size(512 * 1024)
        .spawn(move || {
            let tx2 = Mutex::new(tx2);
            let r = exec(
                &c2,
                cfg,
                prefix,
                true,
                None,
                Arc::new(move |f, n| {
                    *s2.0.lock().unwrap() = Some((f, n));
                    let _ = tx2.lock().unwrap().send(None);
                }),
            );
            let _ = tx.send(Some(r));
        })
        .unwrap();
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(r) => {
            let f = slotres.0.lock().unwrap().take();
            (f, r)
        }
        Err(_) => (Some((Failure::Violation("execution does not finish within 60 s".into()), vec![])), None),
    }
}

fn replay_file(check: &Check, path: &str) -> ! {
    install_hook();
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let get = |k: &str| -> String {
        text.lines().find_map(|l| l.trim().strip_prefix(&format!("\"{k}\": ")).map(|v| v.trim_end_matches(',').to_string())).unwrap_or_default()
    };
    let name = get("config").trim_matches('"').to_string();
    let choices: Vec<u32> = get("choices").trim_matches(['[', ']']).split(',').filter_map(|s| s.trim().parse().ok()).collect();
    let Some(cfg) = check.cfgs.iter().position(|c| json::esc(&c.name) == name) else {
        eprintln!("no configuration {name} in this tier");
        std::process::exit(2)
    };
    let (f, r) = run_one(check, cfg, choices);
    match f {
        Some((Failure::Violation(m), notes)) => {
            for n in notes {
                println!("  {n}");
            }
            println!("reproduced: {m}");
            println!("VIOLATION property={} replay={path}", check.property);
            std::process::exit(1)
        }
        Some((Failure::Harness(m), _)) => {
            eprintln!("harness error: {m}");
            std::process::exit(2)
        }
        None => {
            for n in r.map(|r| r.notes).unwrap_or_default() {
                println!("  {n}");
            }
            println!("the execution satisfies the property");
            std::process::exit(0)
        }
    }
}

fn slots_path() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("mc-slots-{}", std::env::var("MC_SLOTS").unwrap_or_default()))
}

fn supervise(check: &Check) -> ! {
    let id = format!("{}-{}", check.property, std::process::id());
    std::env::set_var("MC_SLOTS", &id);
    let path = slots_path();
    let n = workers();
    std::fs::write(&path, vec![0u8; SLOT_SIZE * n]).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(&exe);
    cmd.args(std::env::args().skip(1)).env("MC_CHILD", "1");
    let status = cmd.status().unwrap();
    let data = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    if let Some(code) = status.code() {
        std::process::exit(code);
    }
    let sig = status.signal().unwrap_or(0);
    if sig == 9 || sig == 15 || sig == 2 {
        eprintln!("explorer ended by signal {sig}");
        std::process::exit(2);
    }
    // The code under test took the process down (abort, segfault). Find which execution did.
    let words = |i: usize| u32::from_le_bytes(data[i * 4..i * 4 + 4].try_into().unwrap());
    let mut cands = vec![];
    for w in 0..n {
        let b = w * SLOT_SIZE / 4;
        let c = words(b);
        if c > 0 {
            let len = words(b + 1) as usize;
            cands.push((c as usize - 1, (0..len).map(|i| words(b + 2 + i)).collect::<Vec<u32>>()));
        }
    }
    for (cfg, prefix) in &cands {
        let list = prefix.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
        let st = std::process::Command::new(&exe)
            .args([&check.property, &check.tier, "--probe", &cfg.to_string(), &list])
            .stderr(std::process::Stdio::null())
            .status()
            .unwrap();
        if let Some(s) = st.signal() {
            let rec = FailRec { cfg: *cfg, prefix: prefix.clone(), failure: Failure::Violation(format!("the process died with signal {s} (reproduced)")), notes: vec![] };
            violation(check, rec);
        }
    }
    if let Some((cfg, prefix)) = cands.into_iter().next() {
        violation(check, FailRec { cfg, prefix, failure: Failure::Violation(format!("the process died with signal {sig} while 8 executions ran; not reproduced alone")), notes: vec![] });
    }
    eprintln!("explorer died with signal {sig}");
    std::process::exit(2)
}

fn workers() -> usize {
    std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
}

fn violation(check: &Check, rec: FailRec) -> ! {
    let msg = match &rec.failure {
        Failure::Violation(m) => m.clone(),
        Failure::Harness(m) => {
            eprintln!("HARNESS ERROR in {} choices {:?}: {m}", check.cfgs[rec.cfg].name, rec.prefix);
            for n in rec.notes {
                eprintln!("  {n}");
            }
            std::process::exit(2)
        }
    };
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", check.property);
    let mut s = String::new();
    s += "{\n";
    s += &format!("  \"property\": \"{}\",\n", check.property);
    s += &format!("  \"tier\": \"{}\",\n", check.tier);
    s += &format!("  \"config\": \"{}\",\n", json::esc(&check.cfgs[rec.cfg].name));
    s += &format!("  \"choices\": {:?},\n", rec.prefix);
    s += &format!("  \"message\": \"{}\",\n", json::esc(&msg));
    s += &format!("  \"history\": [{}]\n", rec.notes.iter().map(|n| format!("\"{}\"", json::esc(n))).collect::<Vec<_>>().join(", "));
    s += "}\n";
    let _ = std::fs::write(&path, s);
    println!("configuration: {}", check.cfgs[rec.cfg].name);
    for n in &rec.notes {
        println!("  {n}");
    }
    println!("violated: {msg}");
    println!("VIOLATION property={} replay={path}", check.property);
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

fn explore(check: Check) -> ! {
    let t0 = Instant::now();
    let n = workers();
    let cap = Duration::from_secs(std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if check.tier == "thorough" { 780 } else { 240 }));
    // shared-memory slots
    let file = std::fs::OpenOptions::new().read(true).write(true).open(slots_path()).unwrap();
    use std::os::fd::AsRawFd;
    let base = unsafe { mmap(std::ptr::null_mut(), SLOT_SIZE * n, 3, 1, file.as_raw_fd(), 0) };
    assert!(base as isize != -1);
    let slots: Vec<Arc<Slot>> = (0..n).map(|i| Arc::new(Slot { map: unsafe { base.add(i * SLOT_SIZE) }, started_ms: AtomicU64::new(0) })).collect();

    let check = Arc::new(check);
    let failrec: Arc<Mutex<Option<FailRec>>> = Arc::new(Mutex::new(None));
    let mut total = Stats::default();
    let mut per_cfg: Vec<(String, u64, u64, u64, u64, usize, bool)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut capped = false;

    // for work on the checks: only the configurations whose name contains this
    let only = std::env::var("MC_ONLY").ok();
    for (idx, cfg) in check.cfgs.iter().enumerate() {
        if only.as_ref().is_some_and(|o| !cfg.name.contains(o.as_str())) {
            continue;
        }
        if capped {
            per_cfg.push((cfg.name.clone(), 0, 0, 0, 0, 0, false));
            continue;
        }
        let shared = Arc::new(Shared { queue: Mutex::new((vec![vec![]], 0)), cv: Condvar::new(), hungry: AtomicUsize::new(0), stop: AtomicBool::new(false) });
        let done = Arc::new(AtomicUsize::new(0));
        let mut stats_rx = vec![];
        for slot in slots.iter().cloned() {
            let (tx, rx) = std::sync::mpsc::channel::<Stats>();
            stats_rx.push(rx);
            let shared = shared.clone();
            let check = check.clone();
            let failrec = failrec.clone();
            let done = done.clone();
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    let s = worker(&check, idx, &shared, slot, failrec);
                    let _ = tx.send(s);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // controller
        let c0 = Instant::now();
        loop {
            std::thread::sleep(if c0.elapsed() < Duration::from_millis(50) { Duration::from_micros(200) } else { Duration::from_millis(5) });
            if let Some(rec) = failrec.lock().unwrap().take() {
                // run it again, narrated; it must fail the same way
                let (f, _) = run_one(&check, idx, rec.prefix.clone());
                let mut rec = rec;
                match f {
                    Some((f, notes)) => {
                        rec.failure = f;
                        rec.notes = notes;
                    }
                    None => {
                        // the same choices, a different verdict: state leaked between executions
                        // that share a worker thread, or nondeterminism in the code under test.
                        if let Failure::Violation(m) = &rec.failure {
                            rec.failure = Failure::Violation(format!("{m} (not reproduced when run alone)"));
                        }
                    }
                }
                violation(&check, rec);
            }
            if done.load(Ordering::SeqCst) == n {
                break;
            }
            let now = now_ms();
            for s in &slots {
                let st = s.started_ms.load(Ordering::Relaxed);
                if st != 0 && now.saturating_sub(st) > 60_000 {
                    let (c, p) = unsafe {
                        let p = s.map as *const u32;
                        let len = p.add(1).read_volatile() as usize;
                        (p.read_volatile(), (0..len).map(|i| p.add(2 + i).read_volatile()).collect::<Vec<_>>())
                    };
                    if c > 0 && s.started_ms.load(Ordering::Relaxed) == st {
                        violation(&check, FailRec { cfg: c as usize - 1, prefix: p, failure: Failure::Violation("execution does not finish within 60 s (livelock)".into()), notes: vec![] });
                    }
                }
            }
            if t0.elapsed() > cap {
                shared.stop.store(true, Ordering::SeqCst);
                shared.cv.notify_all();
                capped = true;
            }
        }
        let mut s = Stats::default();
        for rx in stats_rx {
            let w = rx.recv().unwrap();
            s.execs += w.execs;
            s.steps += w.steps;
            s.choice_points += w.choice_points;
            s.max_depth = s.max_depth.max(w.max_depth);
            s.states.extend(w.states);
            s.outcomes.extend(w.outcomes);
            s.replays += w.replays;
            s.samples.extend(w.samples);
        }
        if let Some(p) = s.samples.iter().max_by_key(|p| (p.len(), (*p).clone())) {
            if samples.len() < 12 {
                if let (None, Some(r)) = run_one(&check, idx, p.clone()) {
                    let mut t = r.notes.join("; ");
                    if t.len() > 600 {
                        t = t.chars().take(600).collect::<String>() + " ...";
                    }
                    samples.push(format!("{}: choices {:?}: {}", cfg.name, p, t));
                }
            }
        }
        eprintln!(
            "[{}] {}: executions {} steps {} states {} outcomes {} depth {} in {:.1}s{}",
            check.property,
            cfg.name,
            s.execs,
            s.steps,
            s.states.len(),
            s.outcomes.len(),
            s.max_depth,
            c0.elapsed().as_secs_f64(),
            if capped { " (time cap hit)" } else { "" }
        );
        per_cfg.push((cfg.name.clone(), s.execs, s.steps, s.states.len() as u64, s.outcomes.len() as u64, s.max_depth, !capped));
        total.execs += s.execs;
        total.steps += s.steps;
        total.choice_points += s.choice_points;
        total.max_depth = total.max_depth.max(s.max_depth);
        total.states.extend(s.states);
        total.outcomes.extend(s.outcomes);
        total.replays += s.replays;
    }

    let wall = t0.elapsed().as_secs_f64();
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", check.property);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut o = String::new();
    o += "{\n";
    o += &format!("  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {seed},\n  \"level\": \"model_checking\",\n", check.property, check.tier);
    o += "  \"coverage\": {\n";
    o += &format!("    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n", total.states.len(), total.steps, total.execs);
    o += &format!("    \"choice_points\": {},\n    \"max_choices_in_one_execution\": {},\n    \"distinct_outcomes\": {},\n    \"determinism_replays\": {},\n", total.choice_points, total.max_depth, total.outcomes.len(), total.replays);
    o += &format!("    \"exhaustive\": {},\n", !capped);
    o += &format!("    \"rule\": \"{}\",\n", json::esc(&check.rule));
    o += "    \"configurations\": [\n";
    o += &per_cfg
        .iter()
        .map(|c| format!("      {{\"name\": \"{}\", \"executions\": {}, \"transitions\": {}, \"states\": {}, \"outcomes\": {}, \"depth\": {}, \"complete\": {}}}", json::esc(&c.0), c.1, c.2, c.3, c.4, c.5, c.6))
        .collect::<Vec<_>>()
        .join(",\n");
    o += "\n    ],\n    \"samples\": [\n";
    o += &samples.iter().map(|s| format!("      \"{}\"", json::esc(s))).collect::<Vec<_>>().join(",\n");
    o += "\n    ]\n  },\n";
    o += &format!("  \"assumptions\": [{}],\n", check.assumptions.iter().map(|s| format!("\"{}\"", json::esc(s))).collect::<Vec<_>>().join(", "));
    o += &format!("  \"wall_s\": {wall:.2},\n  \"violations\": 0\n}}\n");
    if let Err(e) = std::fs::write(&path, o) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
    println!(
        "{} {}: held on {} executions, {} transitions, {} distinct states, {} configurations, {:.1}s{}",
        check.property,
        check.tier,
        total.execs,
        total.steps,
        total.states.len(),
        check.cfgs.len(),
        wall,
        if capped { " (time cap hit: not exhaustive)" } else { "" }
    );
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

fn worker(check: &Check, idx: usize, shared: &Shared, slot: Arc<Slot>, failrec: Arc<Mutex<Option<FailRec>>>) -> Stats {
    let cfg = &check.cfgs[idx];
    let mut st = Stats::default();
    let mut local: Vec<Vec<u32>> = vec![];
    let n = workers();
    loop {
        if shared.stop.load(Ordering::Relaxed) {
            return st;
        }
        let prefix = match local.pop() {
            Some(p) => p,
            None => {
                let mut q = shared.queue.lock().unwrap();
                loop {
                    if shared.stop.load(Ordering::Relaxed) {
                        return st;
                    }
                    if let Some(p) = q.0.pop() {
                        q.1 += 1; // busy workers
                        break p;
                    }
                    if q.1 == 0 {
                        shared.cv.notify_all();
                        return st;
                    }
                    shared.hungry.fetch_add(1, Ordering::Relaxed);
                    q = shared.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                    shared.hungry.fetch_sub(1, Ordering::Relaxed);
                }
            }
        };
        let p2 = prefix.clone();
        let fr = failrec.clone();
        let rep: Arc<dyn Fn(Failure, Vec<String>) + Send + Sync> = Arc::new(move |f, notes| {
            let mut g = fr.lock().unwrap();
            if g.is_none() {
                *g = Some(FailRec { cfg: idx, prefix: p2.clone(), failure: f, notes });
            }
        });
        let plen = prefix.len();
        let r = exec(cfg, idx, prefix, false, Some(slot.clone()), rep.clone());
        st.execs += 1;
        // replay determinism: the first executions and then every 4096th run twice
        if st.execs <= 8 || st.execs % 4096 == 0 {
            let full: Vec<u32> = r.trace.iter().map(|t| t.0).collect();
            let r2 = exec(cfg, idx, full.clone(), false, Some(slot.clone()), rep.clone());
            st.replays += 1;
            if r2.digest != r.digest || r2.trace != r.trace {
                rep(Failure::Violation(format!("the same choices gave different observations twice (choices {full:?})")), vec![]);
                loop {
                    std::thread::park();
                }
            }
            if st.samples.len() < 8 {
                st.samples.push(full);
            }
        }
        st.steps += r.steps;
        st.choice_points += (r.trace.len() - plen.min(r.trace.len())) as u64;
        st.max_depth = st.max_depth.max(r.trace.len());
        st.states.extend(r.states.iter().copied());
        st.outcomes.insert(r.outcome);
        for i in (plen..r.trace.len()).rev() {
            for alt in (1..r.trace[i].1).rev() {
                let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                p.extend(r.trace[..i].iter().map(|t| t.0));
                p.push(alt);
                local.push(p);
            }
        }
        // share the shallowest work with idle workers
        if shared.hungry.load(Ordering::Relaxed) > 0 && local.len() > 1 {
            let mut q = shared.queue.lock().unwrap();
            if q.0.len() < n {
                let k = (local.len() / 2).min(4 * n);
                q.0.extend(local.drain(..k));
                shared.cv.notify_all();
            }
        }
        if local.is_empty() {
            let mut q = shared.queue.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 {
                shared.cv.notify_all();
            }
        }
    }
}

