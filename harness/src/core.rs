//! Explorer core: exhaustive enumeration of choice sequences, sharded over worker
//! processes that a supervisor watches (panic, abort, hang and memory are verdicts).
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// pick a bound by tier
    pub fn q<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// One path through the tree of choices. `pick` is a full alternative, `dev` a deviation from
/// the default (index 0) and costs one unit of the deviation budget when non-zero.
pub struct Ch {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    budget: u32,
}
impl Ch {
    pub fn new(prefix: Vec<u32>, budget: u32) -> Self {
        Ch { prefix, trace: vec![], budget }
    }
    fn step(&mut self, n: u32) -> u32 {
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!(c < n, "replayed choice {c} out of range {n} at step {i}: generator is not deterministic");
        self.trace.push((c, n));
        c
    }
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.step(n as u32) as usize
    }
    pub fn dev(&mut self, n: usize) -> usize {
        let n = if self.budget == 0 { 1 } else { n };
        let c = self.step(n as u32) as usize;
        if c != 0 {
            self.budget -= 1;
        }
        c
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }
    pub fn dev_of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.dev(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn devf(&mut self) -> bool {
        self.dev(2) == 1
    }
    pub fn choices(&self) -> Vec<u32> {
        self.trace.iter().map(|t| t.0).collect()
    }
    fn next_prefix(&self) -> Option<Vec<u32>> {
        for i in (0..self.trace.len()).rev() {
            let (c, n) = self.trace[i];
            if c + 1 < n {
                let mut p: Vec<u32> = self.trace[..i].iter().map(|t| t.0).collect();
                p.push(c + 1);
                return Some(p);
            }
        }
        None
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub evaluations: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub digests: HashSet<u64>,
    pub samples: Vec<serde_json::Value>,
}
impl Stats {
    /// record one observed outcome (its digest counts distinct observations)
    pub fn observe(&mut self, s: &str) {
        if self.digests.len() < 4_000_000 {
            self.digests.insert(fnv(s.as_bytes()));
        }
    }
    pub fn observe_bytes(&mut self, s: &[u8]) {
        if self.digests.len() < 4_000_000 {
            self.digests.insert(fnv(s));
        }
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub type R = Result<(), String>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($x:tt)*) => {{
        let a = &$a; let b = &$b;
        if a != b { return Err(format!("{}: got {}, expected {}", format!($($x)*), $crate::core::short(&format!("{:?}", a)), $crate::core::short(&format!("{:?}", b)))); }
    }};
}
pub fn short(s: &str) -> String {
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…[{} bytes]", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

pub struct Family {
    pub name: &'static str,
    pub rule: String,
    pub budget: u32,
    gen: Box<dyn Fn(&mut Ch) -> Option<Box<dyn Any>>>,
    run: Box<dyn Fn(&dyn Any, &mut Stats) -> R>,
    show: Box<dyn Fn(&dyn Any) -> String>,
    /// true: the whole family runs in one worker process (history-dependent or internally parallel)
    pub solo: bool,
    /// seconds one case may take
    pub case_limit: u64,
}
impl Family {
    /// `gen` returns None for a combination that is not a case.
    pub fn new<C: Debug + 'static>(
        name: &'static str,
        rule: impl Into<String>,
        budget: u32,
        gen: impl Fn(&mut Ch) -> Option<C> + 'static,
        run: impl Fn(&C, &mut Stats) -> R + 'static,
    ) -> Family {
        Family {
            name,
            rule: rule.into(),
            budget,
            gen: Box::new(move |c| gen(c).map(|x| Box::new(x) as Box<dyn Any>)),
            run: Box::new(move |c, s| run(c.downcast_ref::<C>().unwrap(), s)),
            show: Box::new(|c| short(&format!("{:?}", c.downcast_ref::<C>().unwrap()))),
            solo: false,
            case_limit: 60,
        }
    }
    pub fn limit(mut self, s: u64) -> Self {
        self.case_limit = s;
        self
    }
    pub fn solo(mut self) -> Self {
        self.solo = true;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: fn(Tier) -> Vec<Family>,
}

// ---------------------------------------------------------------- panic capture
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("panicked at {l}: {m}");
        if std::env::var_os("WZMC_PANICS").is_some() {
            eprintln!("{s}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        let _ = GLOBAL_PANIC.lock().map(|mut g| *g = s);
    }));
}
pub static GLOBAL_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// run f, turning a panic into Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let s = LAST_PANIC.with(|p| p.borrow().clone());
        if s.is_empty() {
            GLOBAL_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
        } else {
            s
        }
    })
}

// ---------------------------------------------------------------- memory accounting
pub struct Meter;
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static PEAK: AtomicU64 = AtomicU64::new(0);
pub static BIGGEST: AtomicU64 = AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size() as u64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size() as u64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as u64, SeqCst);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as u64, SeqCst);
        note(n as u64);
        std::alloc::System.realloc(p, l, n)
    }
}
fn note(n: u64) {
    let now = LIVE.fetch_add(n, SeqCst) + n;
    if now > PEAK.load(SeqCst) {
        PEAK.store(now, SeqCst);
    }
    if n > BIGGEST.load(SeqCst) {
        BIGGEST.store(n, SeqCst);
    }
}
pub fn mem_reset() {
    PEAK.store(LIVE.load(SeqCst), SeqCst);
    BIGGEST.store(0, SeqCst);
}
/// bytes by which the peak exceeded the level at the last reset
pub fn mem_peak_since(base: u64) -> u64 {
    PEAK.load(SeqCst).saturating_sub(base)
}
pub fn mem_live() -> u64 {
    LIVE.load(SeqCst)
}

// ---------------------------------------------------------------- worker
/// Shared status page: [0]=family, [1]=case index+1 (0 idle), [2]=start ms, [3]=done flag
struct Status {
    map: memmap2::MmapMut,
}
impl Status {
    fn create(p: &Path) -> Status {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).unwrap();
        f.set_len(64).unwrap();
        Status { map: unsafe { memmap2::MmapMut::map_mut(&f).unwrap() } }
    }
    fn cell(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.map.as_ptr().add(i * 8) as *const AtomicU64) }
    }
}
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

pub fn scratch_root() -> PathBuf {
    PathBuf::from(std::env::var("WZMC_SCRATCH").unwrap_or_else(|_| "/tmp/wzmc".into()))
}
thread_local! { static SCRATCH: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }
/// per-process scratch folder (on tmpfs when available)
pub fn scratch() -> PathBuf {
    SCRATCH.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let p = scratch_root().join(format!("w{}", std::process::id()));
                std::fs::create_dir_all(&p).unwrap();
                p
            })
            .clone()
    })
}
/// write a file in the scratch folder and return its path
pub fn scratch_file(name: &str, data: &[u8]) -> PathBuf {
    let p = scratch().join(name);
    std::fs::write(&p, data).unwrap();
    p
}

/// exit codes: 0 finished
pub fn worker(prop: &Property, tier: Tier, me: u64, n: u64, dir: &Path, skip_family: usize, skip_case: u64) {
    install_panic_hook();
    let status = Status::create(&dir.join(format!("status{me}")));
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("out{me}"))).unwrap();
    let known = known_findings(&std::env::var("WZMC_VERIF").map(PathBuf::from).unwrap_or_else(|_| "/verif".into()));
    let deadline = std::env::var("WZMC_DEADLINE_MS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(u64::MAX);
    for (fi, fam) in (prop.families)(tier).into_iter().enumerate() {
        if fi < skip_family {
            continue;
        }
        if let Ok(only) = std::env::var("WZMC_FAMILY") {
            if only != fam.name {
                continue;
            }
        }
        let mut st = Stats::default();
        let t0 = Instant::now();
        let mut failures = 0;
        let mut capped = false;
        let mut prefix = vec![];
        let mut idx: u64 = 0;
        loop {
            let mut ch = Ch::new(prefix, fam.budget);
            let case = (fam.gen)(&mut ch);
            if let Some(case) = case {
                let mine = if fam.solo { me == fi as u64 % n } else { idx % n == me };
                let skip = fi == skip_family && idx < skip_case;
                if mine && !skip {
                    status.cell(0).store(fi as u64, SeqCst);
                    status.cell(2).store(now_ms(), SeqCst);
                    status.cell(3).store(fam.case_limit, SeqCst);
                    status.cell(1).store(idx + 1, SeqCst);
                    let r = no_panic(|| (fam.run)(case.as_ref(), &mut st));
                    status.cell(1).store(0, SeqCst);
                    st.evaluations += 1;
                    let r = match r {
                        Ok(x) => x,
                        Err(p) => Err(p),
                    };
                    let nth = st.evaluations;
                    if nth == 1 || nth == 17 || nth == 1009 {
                        if st.samples.len() < 3 {
                            st.samples.push(serde_json::json!({"family": fam.name, "case": idx, "input": (fam.show)(case.as_ref())}));
                        }
                    }
                    if let Err(m) = r {
                        // what is known does not end a family
                        let text = format!("{}|{}|{m}", fam.name, (fam.show)(case.as_ref()));
                        if !known.iter().any(|k| k.0 == prop.id && text.contains(&k.1)) {
                            failures += 1;
                        }
                        let rec = serde_json::json!({"kind":"fail","family":fam.name,"case":idx,"choices":ch.choices(),"message":short(&m),"input":(fam.show)(case.as_ref())});
                        writeln!(out, "{rec}").unwrap();
                        if failures >= if fam.solo { 4 } else { 25 } {
                            capped = true;
                            break;
                        }
                    }
                    if now_ms() > deadline {
                        capped = true;
                        break;
                    }
                }
                idx += 1;
            }
            match ch.next_prefix() {
                Some(p) => prefix = p,
                None => break,
            }
        }
        let dig: Vec<u64> = st.digests.iter().copied().collect();
        let df = dir.join(format!("dig{me}_{fi}"));
        let mut buf = Vec::with_capacity(dig.len() * 8);
        for d in dig {
            buf.extend_from_slice(&d.to_le_bytes());
        }
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(df).unwrap();
        f.write_all(&buf).unwrap();
        let rec = serde_json::json!({"kind":"family","family":fam.name,"total":idx,"evaluations":st.evaluations,"states":st.states,"transitions":st.transitions,"traces":st.traces,"samples":st.samples,"capped":capped,"wall":t0.elapsed().as_secs_f64(),"rule":fam.rule});
        writeln!(out, "{rec}").unwrap();
        if capped && now_ms() > deadline {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(scratch());
    writeln!(out, "{}", serde_json::json!({"kind":"done"})).unwrap();
}

// ---------------------------------------------------------------- supervisor
pub fn run_one(prop: &Property, tier: Tier, family: &str, choices: Vec<u32>, verbose: bool) -> R {
    let fam = (prop.families)(tier).into_iter().find(|f| f.name == family).ok_or("unknown family")?;
    let mut ch = Ch::new(choices, fam.budget);
    let case = (fam.gen)(&mut ch).ok_or("choices do not name a case")?;
    if verbose {
        println!("case: {}", (fam.show)(case.as_ref()));
    }
    let mut st = Stats::default();
    match no_panic(|| (fam.run)(case.as_ref(), &mut st)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn choices_of(prop: &Property, tier: Tier, fi: usize, case: u64) -> Option<(String, Vec<u32>, String)> {
    let fam = (prop.families)(tier).into_iter().nth(fi)?;
    let mut prefix = vec![];
    let mut idx = 0;
    loop {
        let mut ch = Ch::new(prefix, fam.budget);
        if let Some(c) = (fam.gen)(&mut ch) {
            if idx == case {
                return Some((fam.name.into(), ch.choices(), (fam.show)(c.as_ref())));
            }
            idx += 1;
        }
        prefix = ch.next_prefix()?;
    }
}

pub fn known_findings(verif: &Path) -> Vec<(String, String)> {
    // lines: "finding: property=<id> key=<substring of 'family|input|message'>  # text"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((id, rest)) = r.split_once(" key=") {
                    let key = rest.split("  # ").next().unwrap_or(rest);
                    v.push((id.to_string(), key.to_string()));
                }
            }
        }
    }
    v
}

struct W {
    child: std::process::Child,
    me: u64,
    hung: Option<String>,
    /// the case it was last seen in and the processor time it had used by then
    seen: (u64, u64, f64),
}
/// seconds of processor time
fn cpu_of(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

pub fn check(prop: &Property, tier: Tier, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: u64 = std::env::var("WZMC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = std::env::temp_dir().join(format!("wzmc-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let scratch = if Path::new("/dev/shm").is_dir() && std::fs::write("/dev/shm/.wzmc", b"x").is_ok() {
        let _ = std::fs::remove_file("/dev/shm/.wzmc");
        PathBuf::from(format!("/dev/shm/wzmc-{}-{}", prop.id, std::process::id()))
    } else {
        dir.join("scratch")
    };
    std::fs::create_dir_all(&scratch).unwrap();
    let budget_s: u64 = std::env::var("WZMC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.q(600, 6 * 3600));
    let deadline = now_ms() + budget_s * 1000;
    let exe = std::env::current_exe().unwrap();
    let spawn = |me: u64, fi: usize, case: u64| -> W {
        let log = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("log{me}"))).unwrap();
        let mut c = std::process::Command::new(&exe);
        c.args(["worker", prop.id, tier.name(), &me.to_string(), &n.to_string(), dir.to_str().unwrap(), &fi.to_string(), &case.to_string()]);
        c.env("WZMC_SCRATCH", &scratch).env("WZMC_DEADLINE_MS", deadline.to_string());
        c.env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", std::env::var("RAYON_NUM_THREADS").unwrap_or("4".into()));
        c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(log);
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 3500 << 20, rlim_max: 3500 << 20 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        W { child: c.spawn().unwrap(), me, hung: None, seen: (0, 0, 0.0) }
    };
    let mut live: Vec<W> = (0..n).map(|i| spawn(i, 0, 0)).collect();
    let mut crashes: Vec<(u64, u64, String)> = vec![];
    let mut machinery_error = false;
    let mut restarts = 0;
    // a case that was stopped from outside counts only when it ends so again (the machine may have stalled)
    let mut suspected: Vec<(u64, u64)> = vec![];
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(15));
        let mut next = vec![];
        for mut w in live {
            let status = Status::create(&dir.join(format!("status{}", w.me)));
            match w.child.try_wait().unwrap() {
                None => {
                    let case = status.cell(1).load(SeqCst);
                    let start = status.cell(2).load(SeqCst);
                    let limit = status.cell(3).load(SeqCst);
                    if case != 0 && (w.seen.0, w.seen.1) != (case, start) {
                        w.seen = (case, start, cpu_of(w.child.id()));
                    }
                    let wall = now_ms().saturating_sub(start) as f64 / 1000.0;
                    if case != 0 && w.hung.is_none() && wall > limit as f64 {
                        // it stands still, or it had the time that it may use, or there is no end to it
                        let used = cpu_of(w.child.id()) - w.seen.2;
                        if used < 0.03 * wall || used > 8.0 * limit as f64 || wall > 5.0 * limit as f64 || (used > limit as f64 && used < 1.5 * wall) {
                            w.hung = Some(format!("no result after {wall:.0} s (hang)"));
                            let _ = w.child.kill();
                        }
                    }
                    next.push(w);
                }
                Some(es) => {
                    if es.success() {
                        continue;
                    }
                    let case = status.cell(1).load(SeqCst);
                    let fi = status.cell(0).load(SeqCst);
                    if case == 0 {
                        eprintln!("worker {} ended outside a case: {es}", w.me);
                        if let Ok(l) = std::fs::read_to_string(dir.join(format!("log{}", w.me))) {
                            eprintln!("{}", short(&l));
                        }
                        machinery_error = true;
                        continue;
                    }
                    let killed = std::os::unix::process::ExitStatusExt::signal(&es) == Some(libc::SIGKILL);
                    if killed && crashes.is_empty() && !suspected.contains(&(fi, case)) {
                        suspected.push((fi, case));
                        status.cell(1).store(0, SeqCst);
                        next.push(spawn(w.me, fi as usize, case - 1));
                        continue;
                    }
                    let log = std::fs::read_to_string(dir.join(format!("log{}", w.me))).unwrap_or_default();
                    let tail: String = log.lines().rev().take(3).collect::<Vec<_>>().join(" / ");
                    let why = w.hung.clone().unwrap_or_else(|| format!("process ended: {es} {}", short(&tail)));
                    crashes.push((fi, case - 1, why));
                    status.cell(1).store(0, SeqCst);
                    restarts += 1;
                    if restarts < 40 {
                        next.push(spawn(w.me, fi as usize, case));
                    }
                }
            }
        }
        live = next;
    }
    // gather
    let mut fails: Vec<serde_json::Value> = vec![];
    let mut fams: Vec<(String, u64, u64, u64, u64, u64, bool, f64, String)> = vec![];
    let mut samples = vec![];
    for me in 0..n {
        let s = std::fs::read_to_string(dir.join(format!("out{me}"))).unwrap_or_default();
        for l in s.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            match v["kind"].as_str() {
                Some("fail") => fails.push(v),
                Some("family") => {
                    let name = v["family"].as_str().unwrap().to_string();
                    let g = |k: &str| v[k].as_u64().unwrap_or(0);
                    let e = match fams.iter_mut().find(|f| f.0 == name) {
                        Some(e) => e,
                        None => {
                            fams.push((name, 0, 0, 0, 0, 0, false, 0.0, v["rule"].as_str().unwrap_or("").into()));
                            fams.last_mut().unwrap()
                        }
                    };
                    e.1 += g("evaluations");
                    e.2 += g("states");
                    e.3 += g("transitions");
                    e.4 += g("traces");
                    e.5 = e.5.max(g("total"));
                    e.6 |= v["capped"].as_bool().unwrap_or(false);
                    e.7 = e.7.max(v["wall"].as_f64().unwrap_or(0.0));
                    if me < 2 {
                        for x in v["samples"].as_array().unwrap() {
                            samples.push(x.clone());
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for (fi, case, why) in &crashes {
        if let Some((name, ch, show)) = choices_of(prop, tier, *fi as usize, *case) {
            fails.push(serde_json::json!({"kind":"fail","family":name,"case":case,"choices":ch,"message":why,"input":show}));
        }
    }
    let mut distinct = 0u64;
    let mut all: HashSet<u64> = HashSet::new();
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with("dig") {
            let b = std::fs::read(e.path()).unwrap();
            for c in b.chunks_exact(8) {
                all.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    distinct += all.len() as u64;
    let known = known_findings(verif);
    fails.sort_by_key(|f| (f["family"].as_str().unwrap_or("").to_string(), f["case"].as_u64().unwrap_or(0)));
    let mut violations = vec![];
    let mut seen_known = HashSet::new();
    for f in &fails {
        let text = format!("{}|{}|{}", f["family"].as_str().unwrap_or(""), f["input"].as_str().unwrap_or(""), f["message"].as_str().unwrap_or(""));
        if let Some(k) = known.iter().find(|k| k.0 == prop.id && text.contains(&k.1)) {
            seen_known.insert(k.1.clone());
        } else {
            violations.push(f.clone());
        }
    }
    for k in &seen_known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    let tot = |i: usize| -> u64 {
        fams.iter().map(|f| match i { 1 => f.1, 2 => f.2, 3 => f.3, _ => f.4 }).sum()
    };
    let capped: Vec<&str> = fams.iter().filter(|f| f.6).map(|f| f.0.as_str()).collect();
    let mut cov = serde_json::json!({
        "samples": samples.iter().take(12).collect::<Vec<_>>(),
        "families": fams.iter().map(|f| serde_json::json!({"family":f.0,"cases":f.5,"evaluated":f.1,"states":f.2,"transitions":f.3,"traces":f.4,"complete":!f.6 && f.1==f.5,"rule":f.8})).collect::<Vec<_>>(),
        "exhaustive": capped.is_empty() && fams.iter().all(|f| f.1 == f.5),
        "capped_families": capped,
    });
    let evals = tot(1);
    cov["evaluations"] = evals.into();
    cov["distinct_nontrivial"] = distinct.into();
    cov["rule"] = fams.iter().map(|f| format!("[{}] {}", f.0, f.8)).collect::<Vec<_>>().join(" ").into();
    if prop.level == "model_checking" {
        cov["states"] = (tot(2)).into();
        cov["transitions"] = (tot(3)).into();
        cov["traces_validated_against_impl"] = (tot(4)).into();
    }
    let ev = serde_json::json!({
        "property": prop.id, "tier": tier.name(), "seed": seed, "level": prop.level,
        "coverage": cov, "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    std::fs::write(verif.join("evidence").join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    for f in &fams {
        println!("{} {}: {} of {} cases, {} states, {} transitions, {:.1} s{}", prop.id, f.0, f.1, f.5, f.2, f.3, f.7, if f.6 { " CAPPED" } else { "" });
    }
    println!("{} {}: {} evaluations, {} distinct outcomes, {} violations, {:.1} s", prop.id, tier.name(), evals, distinct, violations.len(), t0.elapsed().as_secs_f64());
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_dir_all(&scratch);
    let mut rc = 0;
    if !violations.is_empty() {
        let od = verif.join("out");
        let _ = std::fs::create_dir_all(&od);
        let mut first = None;
        for (i, v) in violations.iter().enumerate() {
            let p = od.join(format!("{}-{}.json", prop.id, i));
            let rec = serde_json::json!({"property":prop.id,"tier":tier.name(),"family":v["family"],"choices":v["choices"],"input":v["input"],"message":v["message"]});
            std::fs::write(&p, serde_json::to_string_pretty(&rec).unwrap() + "\n").unwrap();
            if i < 12 {
                println!("  {} case {}: {}\n    input {}", v["family"].as_str().unwrap_or(""), v["case"], v["message"].as_str().unwrap_or(""), v["input"].as_str().unwrap_or(""));
            }
            first.get_or_insert(p);
        }
        println!("VIOLATION property={} replay={}", prop.id, first.unwrap().display());
        rc = 1;
    }
    if rc == 0 && machinery_error {
        rc = 2;
    }
    rc
}
