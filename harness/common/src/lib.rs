//! Shared run-time of the monitors: deterministic case generation, a
//! supervising parent process, three-valued verdicts, evidence files.
//!
//! exit 0 = held on everything explored, 1 = VIOLATION printed, 3 = no verdict.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let mut a = [0u8; 32];
        for b in a.iter_mut() {
            *b = self.u64() as u8
        }
        a
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.usize(i + 1));
        }
    }
    /// u64 biased to boundaries
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => self.below(300),
            5 => u64::MAX - self.below(4),
            _ => self.u64() >> self.below(64),
        }
    }
    pub fn edge_i64(&mut self) -> i64 {
        match self.below(8) {
            0 => 0,
            1 => i64::MAX,
            2 => i64::MIN,
            3 => -1,
            4 => self.below(200) as i64 - 100,
            _ => (self.u64() as i64) >> self.below(64),
        }
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 48 { hex(b) } else { format!("{}..({} bytes)", hex(&b[..40]), b.len()) }
}

// ---------------------------------------------------------------- allocator

/// Counts allocation per thread and refuses absurd single requests, which makes
/// an input-controlled allocation observable instead of exhausting the sandbox.
pub struct MonitorAlloc;

const REFUSE: usize = 3 << 30;

thread_local! {
    static ALLOCATED: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for MonitorAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        unsafe { System.realloc(p, l, n) }
    }
}

fn note(n: usize) {
    let _ = ALLOCATED.try_with(|a| a.set(a.get().wrapping_add(n as u64)));
    let _ = LARGEST.try_with(|a| {
        if n as u64 > a.get() {
            a.set(n as u64)
        }
    });
}

/// (bytes requested in total, largest single request) while `f` ran
pub fn measure_alloc<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let a0 = ALLOCATED.with(|a| a.get());
    LARGEST.with(|l| l.set(0));
    let r = f();
    (r, ALLOCATED.with(|a| a.get()) - a0, LARGEST.with(|l| l.get()))
}

// ---------------------------------------------------------------- verdicts

/// Ends a case early. Whatever had to be reported has been reported.
#[derive(Debug)]
pub struct Stop;
pub type Res<T = ()> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    only_case: Option<u64>,
    only_group: Option<String>,
    start: Instant,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    level: Mutex<String>,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    counters: Mutex<BTreeMap<String, u64>>,
    known: BTreeMap<String, String>,
    known_seen: Mutex<BTreeMap<String, u64>>,
    viols: Mutex<BTreeMap<String, String>>,
    errors: Mutex<Vec<String>>,
    stop: AtomicBool,
    extra: Mutex<BTreeMap<String, String>>,
}

static PROGRESS: OnceLock<std::fs::File> = OnceLock::new();
static SLOTS: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: usize = SLOTS.fetch_add(1, Ordering::SeqCst);
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static GROUP: Cell<u64> = const { Cell::new(0) };
}
const MAXSLOTS: usize = 256;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);
static TIDS: [AtomicU64; MAXSLOTS] = [ZERO; MAXSLOTS];
static CURRENT: [AtomicU64; MAXSLOTS] = [ZERO; MAXSLOTS];
static TICKS: [AtomicU64; MAXSLOTS] = [ZERO; MAXSLOTS];

fn set_progress(group: u64, case: u64, active: bool) {
    let slot = SLOT.with(|s| *s) % MAXSLOTS;
    let tid = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
    TIDS[slot].store(tid, Ordering::Relaxed);
    CURRENT[slot].store(case + 1, Ordering::Relaxed);
    TICKS[slot].fetch_add(1, Ordering::Relaxed);
    if !active {
        CURRENT[slot].store(0, Ordering::Relaxed);
    }
    if let Some(f) = PROGRESS.get() {
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&(active as u64).to_le_bytes());
        b[8..16].copy_from_slice(&group.to_le_bytes());
        b[16..].copy_from_slice(&case.to_le_bytes());
        let _ = f.write_at(&b, slot as u64 * 24);
    }
}

/// Marks progress inside a long case so that the watchdog starts afresh.
pub fn tick() {
    let slot = SLOT.with(|s| *s) % MAXSLOTS;
    TICKS[slot].fetch_add(1, Ordering::Relaxed);
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub group: &'static str,
    pub idx: u64,
    pub rng: Rng,
    counts: BTreeMap<&'static str, u64>,
    distinct: Vec<u64>,
    evals: u64,
    pub log: Vec<String>,
}

impl<'a> Case<'a> {
    /// one oracle decision; `key` identifies the situation for distinctness
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.push(key);
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.log.push(s.into());
    }
    pub fn wants_sample(&self) -> bool {
        self.ctx.samples.lock().unwrap().len() < 6
    }
    pub fn sample(&mut self, s: String) {
        let mut v = self.ctx.samples.lock().unwrap();
        if v.len() < 6 {
            v.push(s)
        }
    }
    /// report that the property is broken
    pub fn fail<T>(&mut self, sig: &str, detail: String) -> Res<T> {
        let mut d = String::new();
        for l in &self.log {
            d.push_str(l);
            d.push('\n');
        }
        d.push_str(&detail);
        self.ctx.report(sig, self.group, self.idx, d);
        Err(Stop)
    }
    pub fn ensure(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> Res {
        if ok { Ok(()) } else { self.fail(sig, detail()) }
    }
    pub fn same<T: PartialEq + std::fmt::Debug>(&mut self, got: &T, want: &T, sig: &str) -> Res {
        if got == want {
            Ok(())
        } else {
            self.fail(sig, format!("observed {:?}\nexpected {:?}", got, want))
        }
    }
    /// an error where the property promises success
    pub fn must<T, E: std::fmt::Debug>(&mut self, r: Result<T, E>, sig: &str) -> Res<T> {
        match r {
            Ok(t) => Ok(t),
            Err(e) => self.fail(sig, format!("unexpected error: {e:?}")),
        }
    }
    /// runs code under test; a panic in it is a violation with `sig`
    pub fn guarded<R>(&mut self, sig: &str, f: impl FnOnce() -> R) -> Res<R> {
        match catch(f) {
            Ok(r) => Ok(r),
            Err((loc, msg)) => {
                if is_harness(&loc) {
                    self.ctx.error(format!("harness panic at {loc}: {msg}"));
                    Err(Stop)
                } else {
                    self.fail(sig, format!("panicked at {loc}: {msg}"))
                }
            }
        }
    }
}

fn is_harness(loc: &str) -> bool {
    loc.contains("/verif/harness/") || loc.starts_with("src/") || loc.contains("vcommon") || loc.contains("../common/") || loc.contains("/shims/")
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".into()
            };
            ("?".into(), m)
        })
    })
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick / thorough amount
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() { thorough } else { quick }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn level(&self, s: &str) {
        *self.level.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn extra(&self, k: &str, json: String) {
        self.extra.lock().unwrap().insert(k.into(), json);
    }
    pub fn error(&self, s: String) {
        eprintln!("NO-VERDICT: {s}");
        self.errors.lock().unwrap().push(s);
        self.stop.store(true, Ordering::SeqCst);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.counters.lock().unwrap().get(k).copied().unwrap_or(0)
    }
    /// the run has to have observed at least `min` of `k`, or it decides nothing
    pub fn require(&self, k: &str, min: u64) {
        if self.only_case.is_some() || !self.viols.lock().unwrap().is_empty() {
            return;
        }
        let got = self.counter(k);
        if got < min {
            self.error(format!("observed only {got} of '{k}', need {min}"));
        }
    }
    pub fn eval(&self, key: u64, nontrivial: bool) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if nontrivial {
            self.distinct.lock().unwrap().insert(key);
        }
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 8 {
            v.push(s)
        }
    }
    pub fn report(&self, sig: &str, group: &str, idx: u64, detail: String) {
        if self.known.contains_key(sig) {
            *self.known_seen.lock().unwrap().entry(sig.into()).or_default() += 1;
            return;
        }
        let mut v = self.viols.lock().unwrap();
        if v.contains_key(sig) {
            return;
        }
        let dir = root().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let safe: String = sig
            .chars()
            .map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' })
            .take(60)
            .collect();
        let path = dir.join(format!("{}-{}-{}.txt", self.prop, safe, idx));
        let exe = std::env::current_exe().unwrap_or_default();
        let _ = std::fs::write(
            &path,
            format!(
                "property: {}\nsignature: {}\ntier/seed: {:?}/{}\nreplay: VERIF_SEED={} {} {} --tier {} --group {} --case {}\n\n{}\n",
                self.prop,
                sig,
                self.tier,
                self.seed,
                self.seed,
                exe.display(),
                self.prop,
                if self.thorough() { "thorough" } else { "quick" },
                group,
                idx,
                detail
            ),
        );
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        let short: String = detail.chars().take(1500).collect();
        println!("  signature: {sig}\n  case: {group}/{idx}\n{short}\n");
        let _ = std::io::stdout().flush();
        v.insert(sig.into(), path.display().to_string());
        if v.len() >= 4 {
            self.stop.store(true, Ordering::SeqCst);
        }
    }

    /// Runs cases 0..n of `group` on all cores. Deterministic per (seed, group,
    /// case); `cap` only bounds the run on a slow machine.
    pub fn cases<F>(&self, group: &'static str, n: u64, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        self.cases_on(group, n, threads(), f)
    }

    pub fn cases_on<F>(&self, group: &'static str, n: u64, nthreads: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        if let Some(g) = &self.only_group
            && g != group
        {
            return;
        }
        let gh = fnv(group.as_bytes());
        let next = AtomicU64::new(0);
        let cap = Duration::from_secs(if self.thorough() { 1500 } else { 600 });
        let body = |i: u64| {
            set_progress(gh, i, true);
            let mut case = Case {
                ctx: self,
                group,
                idx: i,
                rng: Rng::new(
                    self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ gh ^ i.wrapping_mul(0xD1342543DE82EF95),
                ),
                counts: BTreeMap::new(),
                distinct: Vec::new(),
                evals: 0,
                log: Vec::new(),
            };
            let r = catch(|| f(&mut case));
            match r {
                Ok(_) => {}
                Err((loc, msg)) => {
                    if is_harness(&loc) {
                        self.error(format!("harness panic at {loc}: {msg} (case {group}/{i})"));
                    } else {
                        let file = loc.split(':').next().unwrap_or("?").to_string();
                        let base = file.rsplit('/').next().unwrap_or("?").to_string();
                        let _: Res = case.fail(&format!("panic-{base}"), format!("code under test panicked at {loc}: {msg}"));
                    }
                }
            }
            set_progress(gh, i, false);
            case
        };
        let flush = |c: &mut BTreeMap<String, u64>, d: &mut Vec<u64>, e: &mut u64| {
            {
                let mut m = self.counters.lock().unwrap();
                for (k, v) in std::mem::take(c) {
                    *m.entry(k).or_default() += v;
                }
            }
            self.evals.fetch_add(std::mem::take(e), Ordering::Relaxed);
            let mut s = self.distinct.lock().unwrap();
            if s.len() < 40_000_000 {
                s.extend(d.drain(..));
            }
            d.clear();
        };
        if let Some(i) = self.only_case {
            let mut case = body(i);
            for l in &case.log {
                println!("{l}");
            }
            let mut c = std::mem::take(&mut case.counts).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
            flush(&mut c, &mut case.distinct, &mut case.evals);
            return;
        }
        std::thread::scope(|s| {
            for _ in 0..nthreads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut c = BTreeMap::new();
                        let mut d = Vec::new();
                        let mut e = 0;
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || self.stop.load(Ordering::Relaxed) || self.start.elapsed() > cap {
                                break;
                            }
                            let mut case = body(i);
                            for (k, v) in std::mem::take(&mut case.counts) {
                                *c.entry(k.to_string()).or_default() += v;
                            }
                            *c.entry(format!("cases_{group}")).or_default() += 1;
                            d.append(&mut case.distinct);
                            e += case.evals;
                            if d.len() > 4096 {
                                flush(&mut c, &mut d, &mut e);
                            }
                        }
                        flush(&mut c, &mut d, &mut e);
                    })
                    .unwrap();
            }
        });
    }

    fn finish(&self) -> i32 {
        let viols = self.viols.lock().unwrap();
        let errors = self.errors.lock().unwrap();
        let known = self.known_seen.lock().unwrap();
        for (sig, n) in known.iter() {
            println!(
                "KNOWN-FINDING: property={} {} [{} seen {}x]",
                self.prop, self.known[sig], sig, n
            );
        }
        let evals = self.evals.load(Ordering::Relaxed);
        let distinct = self.distinct.lock().unwrap().len();
        let mut j = String::from("{\n");
        let q = |s: &str| json_str(s);
        let _ = writeln!(j, "  \"property\": {},", q(&self.prop));
        let _ = writeln!(j, "  \"tier\": {},", q(if self.thorough() { "thorough" } else { "quick" }));
        let _ = writeln!(j, "  \"seed\": {},", self.seed);
        let _ = writeln!(j, "  \"level\": {},", q(&self.level.lock().unwrap()));
        let _ = writeln!(j, "  \"coverage\": {{");
        let _ = writeln!(j, "    \"evaluations\": {evals},");
        let _ = writeln!(j, "    \"distinct_nontrivial\": {distinct},");
        let _ = writeln!(j, "    \"rule\": {},", q(&self.rule.lock().unwrap()));
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| q(s)).collect();
        let _ = writeln!(j, "    \"samples\": [{}],", samples.join(", "));
        for (k, v) in self.extra.lock().unwrap().iter() {
            let _ = writeln!(j, "    {}: {},", q(k), v);
        }
        let obs: Vec<String> = self
            .counters
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}: {}", q(k), v))
            .collect();
        let _ = writeln!(j, "    \"observed\": {{{}}},", obs.join(", "));
        let kn: Vec<String> = known.keys().map(|k| q(k)).collect();
        let _ = writeln!(j, "    \"known_findings_seen\": [{}]", kn.join(", "));
        let _ = writeln!(j, "  }},");
        let a: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| q(s)).collect();
        let _ = writeln!(j, "  \"assumptions\": [{}],", a.join(", "));
        let _ = writeln!(j, "  \"wall_s\": {:.2},", self.start.elapsed().as_secs_f64());
        let _ = writeln!(j, "  \"violations\": {}", viols.len());
        j.push_str("}\n");
        if self.only_case.is_none() {
            let dir = root().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), j) {
                eprintln!("cannot write evidence: {e}");
                return 3;
            }
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violation(s), {} known finding(s), {:.1}s",
            self.prop,
            evals,
            distinct,
            viols.len(),
            known.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  observed {k}: {v}");
        }
        if !viols.is_empty() {
            1
        } else if !errors.is_empty() || (evals == 0 && self.only_case.is_none()) {
            for e in errors.iter().take(5) {
                println!("NO-VERDICT {e}");
            }
            3
        } else {
            0
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn root() -> PathBuf {
    if let Ok(r) = std::env::var("VERIF_ROOT") {
        return r.into();
    }
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("../..").canonicalize().unwrap()
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

/// lines `finding: property=<id> sig=<signature> <what fails>`
fn load_known(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) else { return m };
    for l in t.lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let p = it.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("");
        let s = it.next().and_then(|x| x.strip_prefix("sig=")).unwrap_or("");
        if p == prop && !s.is_empty() {
            m.insert(s.to_string(), it.next().unwrap_or("").to_string());
        }
    }
    m
}

pub type CheckFn = fn(&Ctx);

/// CPU seconds of one case after which it counts as not terminating. Ordinary
/// cases take milliseconds.
const CASE_CPU_LIMIT: u64 = 150;

pub fn main(checks: &[(&str, CheckFn)]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut prop = None;
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut only_case, mut only_group, mut worker) = (None, None, false);
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => {
                tier = if it.next().map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick }
            }
            "--seed" => seed = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            "--case" => only_case = it.next().and_then(|s| s.parse().ok()),
            "--group" => only_group = it.next().cloned(),
            "--worker" => worker = true,
            p => prop = Some(p.to_string()),
        }
    }
    let Some(prop) = prop else {
        for (p, _) in checks {
            println!("{p}");
        }
        std::process::exit(2)
    };
    let Some((_, f)) = checks.iter().find(|(p, _)| *p == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    };
    if !worker {
        std::process::exit(supervise(&prop, &args));
    }
    if let Ok(p) = std::env::var("VCOMMON_PROGRESS")
        && let Ok(fl) = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(p)
    {
        let _ = PROGRESS.set(fl);
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or("?".into());
        let m = if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else {
            "?".into()
        };
        if std::env::var("VDEBUG").is_ok() {
            eprintln!("panic at {loc}: {m}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, m)));
    }));
    let ctx = Ctx {
        prop: prop.clone(),
        tier,
        seed,
        only_case,
        only_group,
        start: Instant::now(),
        rule: Mutex::new(String::new()),
        assumptions: Mutex::new(vec![]),
        level: Mutex::new("exploration".into()),
        evals: AtomicU64::new(0),
        distinct: Mutex::new(HashSet::new()),
        samples: Mutex::new(vec![]),
        counters: Mutex::new(BTreeMap::new()),
        known: load_known(&prop),
        known_seen: Mutex::new(BTreeMap::new()),
        viols: Mutex::new(BTreeMap::new()),
        errors: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
        extra: Mutex::new(BTreeMap::new()),
    };
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    std::thread::spawn(move || watchdog(ctx));
    let r = catch(|| f(ctx));
    if let Err((loc, msg)) = r {
        ctx.error(format!("check panicked at {loc}: {msg}"));
    }
    let code = ctx.finish();
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) }
}

fn thread_cpu(tid: u64) -> Option<f64> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let r = &t[t.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let u: u64 = f.get(11)?.parse().ok()?;
    let s: u64 = f.get(12)?.parse().ok()?;
    Some((u + s) as f64 / 100.0)
}

fn watchdog(ctx: &'static Ctx) {
    let mut seen: BTreeMap<usize, (u64, f64)> = BTreeMap::new();
    loop {
        std::thread::sleep(Duration::from_secs(2));
        for slot in 0..SLOTS.load(Ordering::SeqCst).min(MAXSLOTS) {
            let cur = CURRENT[slot].load(Ordering::Relaxed);
            let tick = TICKS[slot].load(Ordering::Relaxed);
            if cur == 0 {
                seen.remove(&slot);
                continue;
            }
            let Some(cpu) = thread_cpu(TIDS[slot].load(Ordering::Relaxed)) else { continue };
            let e = seen.entry(slot).or_insert((tick, cpu));
            if e.0 != tick {
                *e = (tick, cpu);
            } else if cpu - e.1 > CASE_CPU_LIMIT as f64 {
                ctx.report(
                    "no-termination",
                    ctx.only_group.as_deref().unwrap_or("?"),
                    cur - 1,
                    format!("one case used more than {CASE_CPU_LIMIT} s of CPU time without finishing"),
                );
                let code = ctx.finish();
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(code) }
            }
        }
    }
}

fn supervise(prop: &str, args: &[String]) -> i32 {
    let dir = std::env::temp_dir().join(format!("vcommon-{}-{}", prop, std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        return 3;
    }
    let prog = dir.join("progress");
    let mut child = match std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .arg("--worker")
        .env("VCOMMON_PROGRESS", &prog)
        .env("TMPDIR", &dir)
        .stdout(std::process::Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            return 3;
        }
    };
    let out = child.stdout.take().unwrap();
    for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
        println!("{l}");
    }
    let st = child.wait();
    let p = std::fs::read(&prog).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    let st = match st {
        Ok(s) => s,
        Err(_) => return 3,
    };
    if let Some(c) = st.code() {
        return match c {
            0 | 1 => c,
            c => {
                println!("NO-VERDICT worker ended with code {c}");
                3
            }
        };
    }
    let sig = st.signal().unwrap_or(0);
    let active: BTreeSet<(u64, u64)> = p
        .chunks_exact(24)
        .filter(|c| c[0] == 1)
        .map(|c| {
            (
                u64::from_le_bytes(c[8..16].try_into().unwrap()),
                u64::from_le_bytes(c[16..24].try_into().unwrap()),
            )
        })
        .collect();
    // SIGKILL is the sandbox's memory guard or an outside hand: no verdict.
    if matches!(sig, libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP)
        && !active.is_empty()
    {
        let rd = root().join("replay");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{prop}-crash.txt"));
        let mut t = format!("property: {prop}\nthe process died of signal {sig} while these cases ran (group hash, case):\n");
        for (g, c) in &active {
            let _ = writeln!(t, "  {g:016x} {c}");
        }
        let _ = writeln!(t, "replay each: {} {} --case <case>", std::env::current_exe().unwrap().display(), args.join(" "));
        let _ = std::fs::write(&path, &t);
        println!("VIOLATION property={prop} replay={}", path.display());
        println!("{t}");
        return 1;
    }
    println!("NO-VERDICT worker died of signal {sig}");
    3
}
