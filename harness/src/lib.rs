//! Shared parts of the bounded stand-ins: a small deterministic generator, result collection.
use std::collections::HashSet;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.next() % (b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Run {
    failures: Vec<serde_json::Value>,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    rule: String,
    bound: String,
    start: Instant,
    budget: f64,
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false)
}
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Run {
    /// `quick_s`: time spent at the quick tier (thorough: ten times that).
    pub fn new(rule: &str, bound: &str, quick_s: f64) -> Run {
        // children must not inherit signals ignored or blocked by whatever started the check
        unsafe {
            for s in 1..32 {
                let mut now: libc::sigaction = std::mem::zeroed();
                if s != libc::SIGPIPE && libc::sigaction(s, std::ptr::null(), &mut now) == 0 && now.sa_sigaction == libc::SIG_IGN {
                    libc::signal(s, libc::SIG_DFL);
                }
            }
            let mut none: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut none);
            libc::pthread_sigmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
        }
        Run { failures: vec![], evaluations: 0, nontrivial: HashSet::new(), samples: vec![], rule: rule.into(), bound: bound.into(), start: Instant::now(), budget: if thorough() { quick_s * 10. } else { quick_s } }
    }
    pub fn time_left(&self) -> bool {
        self.elapsed() < self.budget && self.failures.len() < 5
    }
    pub fn elapsed(&self) -> f64 {
        // not counting the shifts of the virtual clock
        self.start.elapsed().as_secs_f64() - clock::OFFSET_NS.load(std::sync::atomic::Ordering::SeqCst) as f64 / 1e9
    }
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn nontrivial<T: std::hash::Hash>(&mut self, t: &T) {
        if self.nontrivial.len() < 2_000_000 {
            self.nontrivial.insert(hash(t));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            self.samples.push(s());
        }
    }
    pub fn fail(&mut self, id: &str, detail: impl Into<String>) {
        if self.failures.iter().filter(|f| f["id"] == id).count() < 3 && self.failures.len() < 40 {
            self.failures.push(serde_json::json!({"id": id, "detail": detail.into()}));
        }
    }
    pub fn failed(&self) -> bool {
        !self.failures.is_empty()
    }
    pub fn finish(self) -> ! {
        let out = serde_json::json!({
            "failures": self.failures, "evaluations": self.evaluations, "distinct_nontrivial": self.nontrivial.len(), "rule": self.rule, "samples": self.samples, "bound": self.bound,
            "summary": format!("{} runs, {} distinct non-trivial, {} failures", self.evaluations, self.nontrivial.len(), self.failures.len()),
        });
        let s = serde_json::to_string_pretty(&out).unwrap();
        match std::env::var("VH_OUT") {
            Ok(p) => std::fs::write(p, s).unwrap(),
            Err(_) => say(&s),
        }
        std::process::exit(if self.failures.is_empty() { 0 } else { 1 });
    }
}

/// A scratch directory removed at exit of the scenario.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::*;
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("VH_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let p = base.join(format!("vh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Default for Scratch {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The process group signals that the code under test sends must reach this process only.
pub fn own_group() {
    unsafe {
        libc::setpgid(0, 0);
        // a handler and not SIG_IGN, which children would inherit
        libc::signal(libc::SIGTERM, nothing as extern "C" fn(libc::c_int) as libc::sighandler_t);
    }
}
extern "C" fn nothing(_: libc::c_int) {}

/// A random DAG as dependency lists (deps[i] contains smaller indices).
pub fn dag(r: &mut Rng, max: usize) -> Vec<Vec<usize>> {
    let n = 1 + r.below(max);
    let style = r.below(4);
    (0..n)
        .map(|i| {
            let mut d: Vec<usize> = match style {
                0 => (0..i).filter(|_| r.chance(1, 2)).collect(),
                1 => (0..i).filter(|_| r.chance(1, 4)).collect(),
                2 => if i > 0 { vec![i - 1 - r.below(i.min(2))] } else { vec![] },
                _ => (0..i).filter(|_| r.chance(1, (i as u64 / 2).max(1))).collect(),
            };
            r.shuffle(&mut d);
            d
        })
        .collect()
}
pub fn ancestors(deps: &[Vec<usize>], v: usize) -> HashSet<usize> {
    let mut s = HashSet::new();
    let mut st = vec![v];
    while let Some(x) = st.pop() {
        for &d in &deps[x] {
            if s.insert(d) {
                st.push(d);
            }
        }
    }
    s
}

pub fn cmd(cmdline: &[&str], key: &str, affinity: u64, priority: u32) -> execgraph::execgraph::Cmd {
    execgraph::execgraph::Cmd {
        cmdline: cmdline.iter().map(|s| std::ffi::OsString::from(*s)).collect(),
        key: key.to_string(),
        display: None,
        affinity: bitvec::array::BitArray::<u64>::new(affinity),
        runcount: 0,
        priority,
        storage_root: 0,
        fd_input: None,
        preamble: None,
        postamble: None,
    }
}

/// Virtual time: every clock reading of this process is the real one plus an offset.
pub mod clock {
    use std::sync::atomic::*;
    pub static OFFSET_NS: AtomicI64 = AtomicI64::new(0);
    pub fn advance(ns: i64) {
        OFFSET_NS.fetch_add(ns, Ordering::SeqCst);
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
        let r = libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
        if r == 0 {
            let o = OFFSET_NS.load(Ordering::SeqCst);
            if o != 0 {
                let t = (*ts).tv_sec as i64 * 1_000_000_000 + (*ts).tv_nsec as i64 + o;
                (*ts).tv_sec = t / 1_000_000_000;
                (*ts).tv_nsec = t % 1_000_000_000;
            }
        }
        r
    }
}

/// Everything the code under test prints goes to /dev/null; the returned handle is the old standard output.
pub fn silence() {
    unsafe {
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        let keep = libc::dup(1);
        OUT.store(keep, std::sync::atomic::Ordering::SeqCst);
        if std::env::var("VH_SHOW").is_err() {
            libc::dup2(n, 1);
            libc::dup2(n, 2);
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_SHOW").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
}
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
pub fn say(s: &str) {
    let s = format!("{}\n", s);
    unsafe { libc::write(OUT.load(std::sync::atomic::Ordering::SeqCst), s.as_ptr() as *const _, s.len()); }
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

/// Checks that the entries of every key go ready, started, finished; returns the last state per key.
pub fn log_grammar(entries: &[execgraph::logfile2::LogEntry]) -> Result<std::collections::HashMap<String, char>, String> {
    use execgraph::logfile2::LogEntry::*;
    let mut st = std::collections::HashMap::new();
    for (i, e) in entries.iter().enumerate() {
        let (k, c) = match e {
            Ready(r) => (&r.key, 'r'),
            Started(r) => (&r.key, 's'),
            Finished(r) => (&r.key, 'f'),
            _ => continue,
        };
        let prev = st.get(k).copied();
        let ok = match c {
            'r' => matches!(prev, None | Some('f')),
            's' => prev == Some('r'),
            _ => prev == Some('s'),
        };
        if !ok {
            return Err(format!("entry {} of key {}: {:?} follows {:?}", i, k, c, prev));
        }
        st.insert(k.clone(), c);
    }
    Ok(st)
}
