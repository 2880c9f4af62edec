//! Running cases in parallel, counting what the monitors saw, and recording verdicts.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fs,
    io::Write,
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use crate::rng::{hash_bytes, mix, Rng};

pub const HANG_CPU_S: u64 = 40;

thread_local! {
    static PANIC_THEIRS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let file = info.location().map(|l| l.file()).unwrap_or("");
        let theirs = file.starts_with("/repo/")
            || !file.starts_with("src/") && !file.contains("/harness/") && {
                // inside the standard library: whose call was it?
                let bt = std::backtrace::Backtrace::force_capture().to_string();
                let at = |s: &str| bt.find(s).unwrap_or(usize::MAX);
                at("telda2::") < at("vmon::chk_").min(at("vmon::sutcpu")).min(at("vmon::objfmt"))
            };
        PANIC_THEIRS.with(|m| m.set(theirs));
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg}{loc}"));
    }));
}

/// Run code under test: a panic in there is an observation, not an error of the harness
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub phase: String,
    pub case: u64,
    pub msg: String,
}

#[derive(Default)]
pub struct Totals {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, String>,
    pub phases: BTreeMap<String, u64>,
    pub exhaustive: Vec<String>,
    pub truncated: bool,
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub tools: PathBuf,
    pub scratch: PathBuf,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub deadline: Instant,
    pub known_sigs: HashSet<String>,
    pub totals: Mutex<Totals>,
    pub progress: Option<fs::File>,
    pub result_path: PathBuf,
    hang_tx: Arc<Mutex<Vec<(u64, String, u64)>>>, // tid, phase, case+1 (0 = idle)
}

pub struct Case<'a> {
    pub run: &'a Run,
    pub rng: Rng,
    pub index: u64,
    phase: String,
    pub evals: u64,
    hashes: Vec<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    pub viol: Option<String>,
    known: BTreeMap<String, String>,
    dir: Option<PathBuf>,
}

impl<'a> Case<'a> {
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
    /// An observed execution that is non-trivial by the rule of the check
    pub fn nontrivial(&mut self, h: u64) {
        self.hashes.push(mix(h));
    }
    pub fn nontrivial_str(&mut self, s: &str) {
        self.hashes.push(hash_bytes(s.as_bytes()));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> String) {
        if self.index < 400 && self.samples.iter().filter(|s| s.0 == kind).count() < 2 {
            let s = f();
            self.samples.push((kind.to_string(), s));
        }
    }
    pub fn violation(&mut self, msg: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some(msg.into());
        }
    }
    /// A failing input of exactly the class recorded under `sig` in the known-findings file
    pub fn known(&mut self, sig: &str, msg: impl Into<String>) {
        if self.run.known_sigs.contains(&format!("{}:{sig}", self.run.id)) {
            self.known.entry(sig.to_string()).or_insert_with(|| msg.into());
        } else {
            let m = msg.into();
            self.violation(m);
        }
    }
    /// A scratch directory of this case
    pub fn dir(&mut self) -> PathBuf {
        if let Some(d) = &self.dir {
            return d.clone();
        }
        let d = self
            .run
            .scratch
            .join(format!("{}-{}", self.phase.replace('/', "_"), self.index));
        fs::create_dir_all(&d).expect("scratch dir");
        self.dir = Some(d.clone());
        d
    }
    pub fn failed(&self) -> bool {
        self.viol.is_some()
    }
}

impl Run {
    pub fn new(
        id: &str,
        thorough: bool,
        seed: u64,
        tools: PathBuf,
        scratch: PathBuf,
        only: Option<(String, u64)>,
        known_file: &Path,
        result_path: PathBuf,
    ) -> Self {
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(16);
        let mut known_sigs = HashSet::new();
        if let Ok(s) = fs::read_to_string(known_file) {
            for l in s.lines() {
                // finding: property=C16 sig=xyz text
                if let Some(r) = l.strip_prefix("finding: property=") {
                    let mut it = r.split_whitespace();
                    if let (Some(p), Some(sig)) = (it.next(), it.next()) {
                        if let Some(sig) = sig.strip_prefix("sig=") {
                            known_sigs.insert(format!("{p}:{sig}"));
                        }
                    }
                }
            }
        }
        let progress = fs::File::create(scratch.join("progress")).ok();
        Run {
            id: id.into(),
            thorough,
            seed,
            tools,
            scratch,
            threads,
            only,
            deadline: Instant::now() + Duration::from_secs(if thorough { 780 } else { 120 }),
            known_sigs,
            totals: Mutex::new(Totals::default()),
            progress,
            result_path,
            hang_tx: Arc::new(Mutex::new(Vec::new())),
        }
    }

    /// number of cases by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let k: u32 = self.id[1..].parse().unwrap_or(0);
        let (q, t) = match k {
            // one processor step is cheap
            1..=9 => (8, 5),
            10 => (4, 1),
            11 => (1, 1),
            12..=14 | 21 => (6, 4),
            22 => (4, 2),
            // a process per case
            24 => (1, 1),
            _ => (2, 1),
        };
        if self.thorough {
            thorough * t
        } else {
            quick * q
        }
    }

    pub fn exhaustive(&self, what: &str) {
        self.totals.lock().unwrap().exhaustive.push(what.into());
    }

    /// Run `n` cases. A case is a pure function of (seed, phase, index) and the code under test.
    pub fn cases(&self, phase: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        let (lo, hi) = match &self.only {
            Some((p, c)) if p == phase => (*c, *c + 1),
            Some(_) => return,
            None => (0, n),
        };
        if self.totals.lock().unwrap().violations.len() >= 3 {
            return;
        }
        let next = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let thread_no = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|s| {
            let mut handles = Vec::new();
            for _ in 0..self.threads.min((hi - lo) as usize).max(1) {
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let tn = thread_no.fetch_add(1, Ordering::SeqCst);
                        let tid = current_tid();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= hi {
                                break;
                            }
                            if i > lo && Instant::now() > self.deadline {
                                self.totals.lock().unwrap().truncated = true;
                                break;
                            }
                            self.note(tn, tid, phase, i);
                            let mut c = Case {
                                run: self,
                                rng: Rng::new(mix(self.seed) ^ hash_bytes(phase.as_bytes()) ^ mix(i ^ 0x5eed)),
                                index: i,
                                phase: phase.into(),
                                evals: 0,
                                hashes: Vec::new(),
                                counters: BTreeMap::new(),
                                samples: Vec::new(),
                                viol: None,
                                known: BTreeMap::new(),
                                dir: None,
                            };
                            if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
                                // a panic of the code under test in a call that only observes it
                                if !PANIC_THEIRS.with(|m| m.get()) {
                                    std::panic::resume_unwind(e);
                                }
                                let m = PANIC_MSG.with(|m| m.borrow().clone());
                                c.violation(format!("the code under test panicked: {m}"));
                            }
                            if let Some(d) = &c.dir {
                                let _ = fs::remove_dir_all(d);
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                            if self.absorb(c) {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        self.note(tn, tid, "", u64::MAX);
                    })
                    .expect("spawn");
                handles.push(h);
            }
            for h in handles {
                if let Err(e) = h.join() {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    eprintln!("harness error in phase {phase}: {m}");
                    fs::write(&self.result_path, format!("harness-error {phase} {m}\n")).ok();
                    std::process::exit(3);
                }
            }
        });
        *self
            .totals
            .lock()
            .unwrap()
            .phases
            .entry(phase.into())
            .or_default() += done.load(Ordering::Relaxed);
    }

    fn note(&self, tn: usize, tid: u64, phase: &str, i: u64) {
        if let Some(p) = &self.progress {
            let s = format!("{:<40} {:>20}\n", phase, i);
            let _ = p.write_all_at(s.as_bytes(), (tn * 62) as u64);
        }
        let mut h = self.hang_tx.lock().unwrap();
        if h.len() <= tn {
            h.resize(tn + 1, (0, String::new(), 0));
        }
        h[tn] = (tid, phase.to_string(), i.wrapping_add(1));
    }

    /// true when enough violations were found
    fn absorb(&self, c: Case) -> bool {
        let mut t = self.totals.lock().unwrap();
        t.evals += c.evals;
        for h in c.hashes {
            if t.distinct.len() < 20_000_000 {
                t.distinct.insert(h);
            }
        }
        for (k, v) in c.counters {
            *t.counters.entry(k).or_default() += v;
        }
        for (k, s) in c.samples {
            let v = t.samples.entry(k).or_default();
            if v.len() < 3 {
                v.push(s);
            }
        }
        for (k, v) in c.known {
            t.known.entry(k).or_insert(v);
        }
        if let Some(msg) = c.viol {
            t.violations.push(Violation {
                phase: c.phase,
                case: c.index,
                msg,
            });
        }
        t.violations.len() >= 3
    }

    /// Watches for code under test that never returns (by CPU time of the thread, not by wall clock)
    pub fn start_watchdog(self: &Arc<Self>) {
        let me = self.clone();
        std::thread::spawn(move || {
            let mut base: BTreeMap<u64, ((String, u64), u64)> = BTreeMap::new();
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let cur = me.hang_tx.lock().unwrap().clone();
                for (tid, phase, i) in cur {
                    if i == 0 {
                        base.remove(&tid);
                        continue;
                    }
                    let cpu = thread_cpu_ticks(tid);
                    let key = (phase.clone(), i);
                    match base.get(&tid) {
                        Some((k, b)) if *k == key => {
                            if cpu.saturating_sub(*b) > HANG_CPU_S * 100 {
                                let mut t = me.totals.lock().unwrap();
                                t.evals += 1;
                                t.violations.push(Violation {
                                    phase: phase.clone(),
                                    case: i - 1,
                                    msg: format!("the code under test does not return ({HANG_CPU_S} s of processor time in one case)"),
                                });
                                drop(t);
                                me.finish();
                                std::process::exit(0);
                            }
                        }
                        _ => {
                            base.insert(tid, (key, cpu));
                        }
                    }
                }
            }
        });
    }

    /// Write what happened for the parent process
    pub fn finish(&self) {
        let t = self.totals.lock().unwrap();
        let mut o = String::new();
        use std::fmt::Write as _;
        writeln!(o, "evals {}", t.evals).unwrap();
        writeln!(o, "distinct {}", t.distinct.len()).unwrap();
        writeln!(o, "truncated {}", t.truncated as u8).unwrap();
        for (k, v) in &t.counters {
            writeln!(o, "counter {v} {k}").unwrap();
        }
        for (k, v) in &t.phases {
            writeln!(o, "phase {v} {k}").unwrap();
        }
        for e in &t.exhaustive {
            writeln!(o, "exhaustive {}", esc(e)).unwrap();
        }
        for (k, v) in &t.samples {
            for s in v {
                writeln!(o, "sample {k}\t{}", esc(s)).unwrap();
            }
        }
        for (k, v) in &t.known {
            writeln!(o, "known {k}\t{}", esc(v)).unwrap();
        }
        for v in &t.violations {
            writeln!(o, "violation {}\t{}\t{}", v.phase, v.case, esc(&v.msg)).unwrap();
        }
        writeln!(o, "end").unwrap();
        let tmp = self.result_path.with_extension("tmp");
        let mut f = fs::File::create(&tmp).expect("result file");
        f.write_all(o.as_bytes()).expect("result file");
        drop(f);
        fs::rename(tmp, &self.result_path).expect("result file");
    }
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn current_tid() -> u64 {
    fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str()?.parse().ok()))
        .unwrap_or(0)
}
fn thread_cpu_ticks(tid: u64) -> u64 {
    let Ok(s) = fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else {
        return 0;
    };
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let g = |n: usize| f.get(n).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
