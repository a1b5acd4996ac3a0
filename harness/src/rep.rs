//! Case runner, verdicts and evidence.

use crate::rng::{hash_str, Rng};
use crate::sup::Slot;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub loc: String,
    pub in_target: bool,
}

/// Append to the log of the current case; it becomes part of the replay file of a violation.
pub fn note(s: impl Into<String>) {
    LOG.with(|l| l.borrow_mut().push(s.into()));
}
fn clear_log() {
    LOG.with(|l| l.borrow_mut().clear());
}
pub fn log_text() -> String {
    LOG.with(|l| l.borrow().join("\n"))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // who panicked: the innermost frame that belongs to the code under test or to this harness
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let mut in_target = loc.starts_with("/repo/rs/");
        for l in bt.lines() {
            if l.contains("install_panic_hook") {
                continue;
            }
            if l.contains("glicol") || l.contains("/repo/rs/") {
                in_target = true;
                break;
            }
            if l.contains("vmon::") || l.contains("at ./src/") {
                break;
            }
        }
        PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { msg, loc, in_target }));
    }));
}

/// Run target code, turning a panic of the target into `Err`. A panic of the harness is passed on.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let info = PANIC.with(|p| p.borrow_mut().take());
            match info {
                Some(i) if i.in_target => Err(i),
                other => {
                    PANIC.with(|p| *p.borrow_mut() = other);
                    std::panic::resume_unwind(e)
                }
            }
        }
    }
}

/// What a case observed.
pub struct Obs {
    /// identity of the case for the distinct count
    pub key: u64,
    pub nontrivial: bool,
    pub desc: String,
}
impl Obs {
    pub fn new(desc: impl Into<String>, nontrivial: bool) -> Obs {
        let desc = desc.into();
        Obs { key: hash_str(&desc), nontrivial, desc }
    }
}
pub type Case = Result<Obs, String>;

pub struct Viol {
    pub case: u64,
    pub part: String,
    pub what: String,
    pub log: String,
}

pub struct Rep {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub only: Option<u64>,
    pub only_part: Option<String>,
    pub start: Instant,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    meas: Mutex<BTreeMap<String, u64>>,
    viols: Mutex<Vec<Viol>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    errors: Mutex<Vec<String>>,
    stop: AtomicBool,
}

pub const ROOT: &str = "/verif";

impl Rep {
    pub fn new(id: &str, tier: &str, seed: u64) -> Rep {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{ROOT}/known-findings.txt")) {
            // finding: property=<id> sig=<text up to end of line>
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("finding: property=") {
                    if let Some((p, s)) = r.split_once(" sig=") {
                        if p == id {
                            known.push((p.to_string(), s.to_string()));
                        }
                    }
                }
            }
        }
        Rep {
            id: id.into(),
            tier: tier.into(),
            seed,
            only: None,
            only_part: None,
            start: Instant::now(),
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            evals: AtomicU64::new(0),
            distinct: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            meas: Mutex::new(BTreeMap::new()),
            viols: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            errors: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == "quick"
    }
    /// quick / thorough sizes
    pub fn n(&self, q: u64, t: u64) -> u64 {
        if self.quick() {
            q * match self.id.as_str() {
                "C07" | "C25" | "C26" | "C30" => 1,
                "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C20" | "C24" | "C31" => 6,
                _ => 3,
            }
        } else {
            t
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.meas.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn maxi(&self, k: &str, n: u64) {
        let mut m = self.meas.lock().unwrap();
        let e = m.entry(k.into()).or_default();
        *e = (*e).max(n);
    }
    pub fn measured(&self, k: &str) -> u64 {
        self.meas.lock().unwrap().get(k).copied().unwrap_or(0)
    }
    pub fn error(&self, s: impl Into<String>) {
        self.errors.lock().unwrap().push(s.into());
    }
    /// require that something was actually observed
    pub fn require(&self, k: &str, min: u64) {
        if self.only.is_some() || self.stop.load(SeqCst) {
            return;
        }
        let v = self.measured(k);
        if v < min {
            self.error(format!("observed only {v} of {k}, expected at least {min}"));
        }
    }
    pub fn known_hit(&self, sig: &str) -> bool {
        for (_, s) in &self.known {
            if s == sig {
                *self.known_hit.lock().unwrap().entry(s.clone()).or_default() += 1;
                return true;
            }
        }
        false
    }
    pub fn violation(&self, part: &str, case: u64, what: String) {
        let sig = what.lines().next().unwrap_or("").to_string();
        if self.known_hit(&sig) {
            return;
        }
        let mut v = self.viols.lock().unwrap();
        v.push(Viol { case, part: part.into(), what, log: log_text() });
        if v.len() >= 3 {
            self.stop.store(true, SeqCst);
        }
    }

    /// Run cases `0..n` of `part` on all cores, capped in time; a minimum number must have completed.
    pub fn cases(&self, part: &str, n: u64, cap_s: u64, f: impl Fn(&mut Rng, u64) -> Case + Sync) {
        if self.stop.load(SeqCst) {
            return;
        }
        if let Some(p) = &self.only_part {
            if p != part {
                return;
            }
        }
        let tag = format!("{}/{}", self.id, part);
        if let Some(c) = self.only {
            self.one(part, &tag, c, &f);
            return;
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let deadline = Instant::now() + Duration::from_secs(cap_s);
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || loop {
                        let c = next.fetch_add(1, SeqCst);
                        if c >= n || Instant::now() > deadline || self.stop.load(SeqCst) {
                            return;
                        }
                        self.one(part, &tag, c, &f);
                        done.fetch_add(1, SeqCst);
                    })
                    .unwrap();
            }
        });
        let done = done.load(SeqCst);
        self.count(&format!("cases_{part}"), done);
        if done < (n / 20).max(1) && !self.stop.load(SeqCst) {
            self.error(format!("part {part}: only {done} of {n} cases completed in {cap_s} s"));
        }
    }

    fn one(&self, part: &str, tag: &str, c: u64, f: &(impl Fn(&mut Rng, u64) -> Case + Sync)) {
        clear_log();
        journal(self, part, c);
        let mut rng = Rng::new(self.seed, tag, c);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, c)));
        self.evals.fetch_add(1, SeqCst);
        match r {
            Ok(Ok(o)) => {
                if o.nontrivial {
                    let fresh = self.distinct.lock().unwrap().insert(o.key);
                    if fresh {
                        let mut s = self.samples.lock().unwrap();
                        if s.len() < 6 || (s.len() < 12 && c % 97 == 13) {
                            s.push(format!("{part}#{c}: {}", o.desc.chars().take(700).collect::<String>()));
                        }
                    }
                }
            }
            Ok(Err(what)) => self.violation(part, c, what),
            Err(_) => {
                let info = PANIC.with(|p| p.borrow_mut().take());
                match info {
                    Some(i) if i.in_target => {
                        self.violation(part, c, format!("panic at {}: {}", i.loc, i.msg))
                    }
                    Some(i) => self.error(format!("harness panic in {part}#{c} at {}: {}\n{}", i.loc, i.msg, log_text())),
                    None => self.error(format!("unknown panic in {part}#{c}")),
                }
                if self.errors.lock().unwrap().len() > 5 {
                    self.stop.store(true, SeqCst);
                }
            }
        }
    }

    /// the worker died; its counts are lost
    pub fn crashed(&self) {
        self.evals.fetch_add(1, SeqCst);
        self.rule("the worker process ended before it could report; see the replay file");
        self.viols.lock().unwrap().push(Viol { case: 0, part: String::new(), what: String::new(), log: String::new() });
    }

    /// Write the evidence file.
    pub fn evidence(&self, level: &str) {
        let mut cov = String::new();
        cov += &format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, ",
            self.evals.load(SeqCst),
            self.distinct.lock().unwrap().len()
        );
        cov += &format!("\"rule\": {}, ", js(&self.rule.lock().unwrap()));
        cov += &format!(
            "\"samples\": [{}]",
            self.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
        );
        for (k, v) in self.meas.lock().unwrap().iter() {
            cov += &format!(", {}: {}", js(k), v);
        }
        let ev = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            js(&self.id),
            js(&self.tier),
            self.seed,
            js(level),
            self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            self.viols.lock().unwrap().len()
        );
        let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
        if let Err(e) = std::fs::write(format!("{ROOT}/evidence/{}.json", self.id), ev) {
            self.error(format!("cannot write evidence: {e}"));
        }
    }

    /// Write the evidence and return the exit code.
    pub fn finish(&self, level: &str) -> i32 {
        let distinct = self.distinct.lock().unwrap().len();
        if self.only.is_none() {
            if self.viols.lock().unwrap().is_empty() && distinct == 0 {
                self.error("no non-trivial case was observed");
            }
            self.evidence(level);
        }
        let viols = self.viols.lock().unwrap();
        let errors = self.errors.lock().unwrap().clone();
        for (s, n) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} (seen {} times)", self.id, s, n);
        }
        if !viols.is_empty() {
            let _ = std::fs::create_dir_all(format!("{ROOT}/replays"));
            for (i, v) in viols.iter().enumerate() {
                let path = format!("{ROOT}/replays/{}-{}-{}.txt", self.id, self.seed, i);
                let text = format!(
                    "property {}\nreplay with: VERIF_SEED={} ./check {} {} {} {}\n\n{}\n\n--- case log ---\n{}\n",
                    self.id, self.seed, self.id, self.tier, v.part, v.case, v.what, v.log
                );
                let _ = std::fs::write(&path, &text);
                println!("{}", v.what);
                println!("VIOLATION property={} replay={}", self.id, path);
                if self.only.is_some() {
                    println!("{text}");
                }
            }
            let _ = std::io::stdout().flush();
            return 1;
        }
        if !errors.is_empty() {
            for e in errors {
                eprintln!("ERROR: {e}");
            }
            return 2;
        }
        println!(
            "{} {}: {} evaluations, {} distinct non-trivial, {:.1} s",
            self.id,
            self.tier,
            self.evals.load(SeqCst),
            distinct,
            self.start.elapsed().as_secs_f64()
        );
        0
    }
}

static SLOTS: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
pub fn slots() -> Vec<std::sync::Arc<Slot>> {
    SLOTS.lock().unwrap().clone()
}

/// Tell the supervising process and the watching thread which case this thread works on.
fn journal(rep: &Rep, part: &str, c: u64) {
    struct Mine(std::fs::File, std::sync::Arc<Slot>);
    impl Drop for Mine {
        fn drop(&mut self) {
            self.1.serial.store(0, SeqCst);
        }
    }
    thread_local! {
        static MINE: RefCell<Option<Mine>> = const { RefCell::new(None) };
    }
    let Ok(dir) = std::env::var("VMON_JOURNAL") else { return };
    MINE.with(|m| {
        let mut m = m.borrow_mut();
        if m.is_none() {
            static NEXT: AtomicU64 = AtomicU64::new(0);
            let Ok(f) = std::fs::File::create(format!("{dir}/{}", NEXT.fetch_add(1, SeqCst))) else { return };
            let tid = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name().and_then(|f| f.to_str()).and_then(|f| f.parse().ok()))
                .unwrap_or(0);
            let slot = std::sync::Arc::new(Slot {
                tid: AtomicU64::new(tid),
                serial: AtomicU64::new(0),
                seen: AtomicU64::new(0),
                at: AtomicU64::new(0),
                case: Mutex::new((String::new(), 0)),
            });
            SLOTS.lock().unwrap().push(slot.clone());
            *m = Some(Mine(f, slot));
        }
        if let Some(Mine(f, slot)) = m.as_mut() {
            use std::os::unix::fs::FileExt;
            static SERIAL: AtomicU64 = AtomicU64::new(1);
            *slot.case.lock().unwrap() = (part.into(), c);
            slot.serial.store(SERIAL.fetch_add(1, SeqCst), SeqCst);
            let _ = f.write_all_at(format!("{:<8}{:<24}{:>12}\n", rep.id, part, c).as_bytes(), 0);
        }
    });
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
