//! Runner: deterministic cases spread over threads, guarded calls into the code under test,
//! crash journal, watchdog, verdicts, replay files and evidence.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::atomic64::AtomicU64;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    pub seed: u64,
    pub tier: Tier,
    /// root of the verification tree (work files, evidence, replays)
    pub root: String,
    /// scale factor for the number of random cases (sanitizer builds run fewer)
    pub scale: f64,
}
impl Env {
    pub fn from_env() -> Env {
        let g = |k: &str| std::env::var(k).ok();
        Env {
            seed: g("VERIF_SEED").and_then(|s| s.trim().parse().ok()).unwrap_or(1),
            tier: if g("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
            root: g("MON_ROOT").unwrap_or_else(|| "/verif".into()),
            scale: g("MON_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.tier == Tier::Quick { quick } else { thorough }
    }
    /// number of random cases, scaled
    pub fn rn(&self, quick: u64, thorough: u64) -> u64 {
        ((self.n(quick, thorough) as f64 * self.scale) as u64).max(1)
    }
}

pub struct Phase<'a> {
    pub name: &'static str,
    pub count: u64,
    pub batch: u64,
    pub f: Box<dyn Fn(&mut Ctx) + Sync + 'a>,
}
impl<'a> Phase<'a> {
    pub fn new(name: &'static str, count: u64, f: impl Fn(&mut Ctx) + Sync + 'a) -> Phase<'a> {
        Phase { name, count, batch: 64, f: Box::new(f) }
    }
    pub fn batch(mut self, b: u64) -> Self {
        self.batch = b;
        self
    }
}

pub struct Check<'a> {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub phases: Vec<Phase<'a>>,
    /// statistics keys that must be non-zero, or the run observed nothing
    pub need: Vec<&'static str>,
    pub exhaustive: bool,
}

#[derive(Default)]
pub struct Local {
    evals: u64,
    hashes: Vec<u64>,
    nontrivial_flushed: HashSet<u64>,
    stats: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

#[derive(Clone)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
    pub phase: String,
    pub idx: u64,
    pub input: Vec<u8>,
}

// ---------------------------------------------------------------- journal

/// one slot per worker thread in a file mapping that outlives an abort of this process
#[repr(C)]
pub struct Slot {
    phase: AtomicU64,
    idx: AtomicU64,
    guard: AtomicU64, // odd while inside guarded code
    tid: AtomicU64,
}
pub const SLOTS: usize = 64;

extern "C" {
    #[cfg(unix)]
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn gettid() -> i32;
}

pub struct Journal {
    p: *const Slot,
}
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
impl Journal {
    #[cfg(not(unix))]
    pub fn create(_: &str) -> Journal {
        unimplemented!()
    }
    #[cfg(unix)]
    pub fn create(path: &str) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("journal");
        let len = SLOTS * std::mem::size_of::<Slot>();
        f.set_len(len as u64).expect("journal size");
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "journal mmap");
        Journal { p: p as *const Slot }
    }
    pub fn slot(&self, i: usize) -> &Slot {
        assert!(i < SLOTS);
        unsafe { &*self.p.add(i) }
    }
    /// (phase, idx) of every slot that was inside guarded code
    pub fn read(path: &str) -> Vec<(u64, u64)> {
        let b = std::fs::read(path).unwrap_or_default();
        b.chunks_exact(32)
            .filter_map(|c| {
                let g = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
                (g(2) & 1 == 1).then(|| (g(0), g(1)))
            })
            .collect()
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static IN_GUARD: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// keep panics on this thread from being printed
pub fn quiet(on: bool) {
    GUARDED.with(|g| g.set(on));
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if GUARDED.with(|g| g.get()) {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            IN_GUARD.with(|g| *g.borrow_mut() = Some(format!("{} at {}", m, loc)));
        } else {
            old(i)
        }
    }));
}

/// marker used by the harness's own readers to break an endless read loop
pub const HANG: &str = "HARNESS-HANG: endless reads";

// ---------------------------------------------------------------- context

pub struct Ctx<'a> {
    pub rng: Rng,
    pub env: &'a Env,
    pub idx: u64,
    pub phase: &'static str,
    local: &'a mut Local,
    muted: bool,
    slot: &'a Slot,
    shared: &'a Shared,
}

pub struct Shared {
    pub failures: Mutex<Vec<Failure>>,
    pub unknown: AtomicU64,
    pub stop: AtomicBool,
    pub known: Vec<String>,
    pub timed_out: AtomicBool,
    pub harness_panic: Mutex<Option<String>>,
}

impl<'a> Ctx<'a> {
    /// run code under test; Err carries the panic message
    pub fn guard<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        let g = self.slot.guard.load(Relaxed);
        self.slot.guard.store(g + 1, Release);
        GUARDED.with(|x| x.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        GUARDED.with(|x| x.set(false));
        self.slot.guard.store(g + 2, Release);
        r.map_err(|_| IN_GUARD.with(|g| g.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
    }
    /// one evaluated case; `h` identifies its input
    pub fn eval(&mut self, h: u64, nontrivial: bool) {
        self.local.evals += 1;
        if nontrivial {
            self.local.hashes.push(h);
        }
    }
    pub fn stat(&mut self, k: &'static str, n: u64) {
        *self.local.stats.entry(k).or_insert(0) += n;
    }
    pub fn stat_max(&mut self, k: &'static str, n: u64) {
        let e = self.local.stats.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.local.samples.len() < 2 && (self.idx % 17 == 3 || self.local.samples.is_empty()) {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            let p = self.phase;
            self.local.samples.push(format!("[{} #{}] {}", p, self.idx, s));
        }
    }
    /// mute or unmute `fail`, for workloads that only a sanitizer judges; returns the old state
    pub fn failures_muted(&mut self, m: bool) -> bool {
        std::mem::replace(&mut self.muted, m)
    }
    pub fn fail(&mut self, sig: &str, msg: impl FnOnce() -> String, input: &[u8]) {
        if self.muted {
            return;
        }
        let known = self.shared.known.iter().any(|k| k == sig);
        let mut fs = self.shared.failures.lock().unwrap();
        let same = fs.iter().filter(|f| f.sig == sig).count();
        if !known {
            let n = self.shared.unknown.fetch_add(1, SeqCst);
            if n >= 200 {
                self.shared.stop.store(true, SeqCst);
            }
        }
        if same >= 3 || fs.len() > 400 {
            return;
        }
        let mut m = msg();
        if m.len() > 4000 {
            let mut k = 4000;
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            m.truncate(k);
        }
        fs.push(Failure { sig: sig.to_string(), msg: m, phase: self.phase.to_string(), idx: self.idx, input: input[..input.len().min(1 << 16)].to_vec() });
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(400) {
        let _ = write!(s, "{:02x}", x);
    }
    if b.len() > 400 {
        let _ = write!(s, "..({} bytes)", b.len());
    }
    s
}
pub fn hex_full(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    pub sig: String,
    pub what: String,
}
/// lines `finding: property=<id> sig=<signature> <what fails>`; `fixed:` lines suppress nothing
pub fn known_findings(root: &str, id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let (p, s, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p.strip_prefix("property=") == Some(id) {
                if let Some(s) = s.strip_prefix("sig=") {
                    out.push(Known { sig: s.to_string(), what: w.to_string() });
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- running

fn cpu_ticks(tid: u64) -> Option<(u64, char)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?, f[0].chars().next()?))
}

pub struct Outcome {
    pub code: i32,
}

pub fn threads() -> usize {
    std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

/// runs every case of the check (or one, for a replay) and decides
pub fn run(check: &Check, env: &Env, only: Option<(String, u64)>) -> Outcome {
    install_panic_hook();
    let t0 = Instant::now();
    let known = known_findings(&env.root, check.id);
    let work = format!("{}/work", env.root);
    std::fs::create_dir_all(&work).expect("work dir");
    let jpath = std::env::var("MON_JOURNAL").unwrap_or_else(|_| format!("{}/{}.journal", work, check.id));
    let journal = Journal::create(&jpath);
    let shared = Shared {
        failures: Mutex::new(vec![]),
        unknown: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        known: known.iter().map(|k| k.sig.clone()).collect(),
        timed_out: AtomicBool::new(false),
        harness_panic: Mutex::new(None),
    };
    let cap_s: u64 = std::env::var("MON_TIME_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if env.tier == Tier::Quick { 600 } else { 3600 * 3 });
    let done = AtomicBool::new(false);
    let n = if only.is_some() { 1 } else { threads() };
    let locals: Vec<Mutex<Local>> = (0..n).map(|_| Mutex::new(Local::default())).collect();
    let mut per_phase: Vec<(String, u64, f64)> = vec![];
    std::thread::scope(|sc| {
        // watchdog
        sc.spawn(|| {
            let mut last: Vec<(u64, u64, Option<u64>, u32)> = vec![(0, 0, None, 0); SLOTS];
            while !done.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                if t0.elapsed().as_millis() % 1000 > 120 {
                    if t0.elapsed().as_secs() > cap_s {
                        shared.timed_out.store(true, SeqCst);
                        shared.stop.store(true, SeqCst);
                    }
                    continue;
                }
                for i in 0..n {
                    let s = journal.slot(i);
                    let (g, tid) = (s.guard.load(Acquire), s.tid.load(Relaxed));
                    if g & 1 == 0 || tid == 0 {
                        last[i] = (0, 0, None, 0);
                        continue;
                    }
                    let Some((cpu, state)) = cpu_ticks(tid) else { continue };
                    if last[i].1 != g || last[i].2.is_none() {
                        last[i] = (s.idx.load(Relaxed), g, Some(cpu), 0);
                        continue;
                    }
                    if state == 'S' || state == 'D' {
                        last[i].3 += 1;
                    }
                    let used = cpu.saturating_sub(last[i].2.unwrap());
                    if used > 100 * 60 || last[i].3 > 120 {
                        let ph = s.phase.load(Relaxed) as usize;
                        let f = Failure {
                            sig: "hang".into(),
                            msg: format!("one call did not return: {} CPU seconds, {} sleeping polls", used / 100, last[i].3),
                            phase: check.phases[ph].name.into(),
                            idx: s.idx.load(Relaxed),
                            input: vec![],
                        };
                        report(check, env, &[f], &known);
                        std::process::exit(1);
                    }
                }
            }
        });
        for (pi, ph) in check.phases.iter().enumerate() {
            if shared.stop.load(SeqCst) {
                break;
            }
            let tp = Instant::now();
            let next = AtomicU64::new(0);
            let (lo, hi) = match &only {
                Some((p, i)) => {
                    if p != ph.name {
                        continue;
                    }
                    (*i, *i + 1)
                }
                None => (0, ph.count),
            };
            next.store(lo, SeqCst);
            std::thread::scope(|s2| {
                for t in 0..n {
                    let (next, shared, journal, locals) = (&next, &shared, &journal, &locals);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s2, move || {
                            let slot = journal.slot(t);
                            slot.guard.store(0, SeqCst);
                            slot.tid.store(unsafe { gettid() } as u64, SeqCst);
                            slot.phase.store(pi as u64, SeqCst);
                            let mut local = locals[t].lock().unwrap();
                            local.samples.retain(|s| !s.is_empty());
                            let keep = std::mem::take(&mut local.samples);
                            'outer: loop {
                                let a = next.fetch_add(ph.batch, SeqCst);
                                if a >= hi {
                                    break;
                                }
                                for idx in a..(a + ph.batch).min(hi) {
                                    if shared.stop.load(Relaxed) {
                                        break 'outer;
                                    }
                                    slot.idx.store(idx, Relaxed);
                                    let mut c = Ctx {
                                        rng: Rng::for_case(env.seed, ph.name, idx),
                                        env,
                                        idx,
                                        phase: ph.name,
                                        local: &mut local,
                                        muted: false,
                                        slot,
                                        shared,
                                    };
                                    let r = catch_unwind(AssertUnwindSafe(|| (ph.f)(&mut c)));
                                    if r.is_err() {
                                        *shared.harness_panic.lock().unwrap() = Some(format!("phase {} case {}", ph.name, idx));
                                        shared.stop.store(true, SeqCst);
                                    }
                                }
                                // keep memory bounded: fold into an exact set
                                if local.hashes.len() > 1 << 16 {
                                    let h = std::mem::take(&mut local.hashes);
                                    if local.nontrivial_flushed.len() < 4_000_000 {
                                        local.nontrivial_flushed.extend(h);
                                    }
                                }
                            }
                            let mut s = std::mem::replace(&mut local.samples, keep);
                            local.samples.append(&mut s);
                        })
                        .expect("spawn");
                }
            });
            per_phase.push((ph.name.to_string(), hi - lo, tp.elapsed().as_secs_f64()));
        }
        done.store(true, SeqCst);
    });
    if let Some(m) = shared.harness_panic.lock().unwrap().clone() {
        eprintln!("harness error: {}", m);
        return Outcome { code: 2 };
    }
    // merge
    let mut evals = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = vec![];
    for l in &locals {
        let mut l = l.lock().unwrap();
        evals += l.evals;
        distinct.extend(std::mem::take(&mut l.hashes));
        distinct.extend(std::mem::take(&mut l.nontrivial_flushed));
        for (k, v) in &l.stats {
            let e = stats.entry(k).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(*v)
            } else {
                *e += v
            }
        }
        samples.append(&mut l.samples);
    }
    // a few samples per phase
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    samples.retain(|s| {
        let k = s.split('#').next().unwrap_or("").to_string();
        let e = seen.entry(k).or_insert(0);
        *e += 1;
        *e <= 2
    });
    let failures = shared.failures.lock().unwrap().clone();
    let fresh: Vec<Failure> = failures.iter().filter(|f| !shared.known.contains(&f.sig)).cloned().collect();
    if only.is_none() {
        write_evidence(check, env, evals, distinct.len() as u64, &stats, &samples, &per_phase, t0.elapsed().as_secs_f64(), &failures, fresh.len(), shared.timed_out.load(SeqCst), &known);
    }
    for k in &known {
        if failures.iter().any(|f| f.sig == k.sig) {
            println!("KNOWN-FINDING: property={} {}", check.id, k.what);
        }
    }
    if !fresh.is_empty() {
        report(check, env, &fresh, &known);
        return Outcome { code: 1 };
    }
    if only.is_none() {
        for k in &check.need {
            if stats.get(k).copied().unwrap_or(0) == 0 {
                eprintln!("inconclusive: nothing observed for '{}'", k);
                return Outcome { code: 3 };
            }
        }
        println!(
            "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s{}",
            check.id, evals, distinct.len(), t0.elapsed().as_secs_f64(),
            if shared.timed_out.load(SeqCst) { " (time cap reached)" } else { "" }
        );
    } else {
        println!("replay: the case held");
    }
    Outcome { code: 0 }
}

/// one VIOLATION line per distinct signature, each with its replay file
pub fn report(check: &Check, env: &Env, fresh: &[Failure], _known: &[Known]) {
    let dir = format!("{}/replays", env.root);
    let _ = std::fs::create_dir_all(&dir);
    let mut sigs: Vec<String> = vec![];
    for f in fresh {
        if sigs.contains(&f.sig) || sigs.len() >= 8 {
            continue;
        }
        sigs.push(f.sig.clone());
        let tag = crate::rng::hash_bytes(format!("{}{}{}", f.sig, f.phase, f.idx).as_bytes());
        let path = format!("{}/{}-{:012x}.replay", dir, check.id, tag & 0xffff_ffff_ffff);
        let body = format!(
            "property: {}\nseed: {}\ntier: {}\nphase: {}\nindex: {}\nsignature: {}\nwhat: {}\ninput: {}\n",
            check.id,
            env.seed,
            if env.tier == Tier::Quick { "quick" } else { "thorough" },
            f.phase,
            f.idx,
            f.sig,
            f.msg.replace('\n', "\\n"),
            hex_full(&f.input)
        );
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={}", check.id, path);
        println!("  {} [{} #{}]: {}", f.sig, f.phase, f.idx, f.msg.chars().take(700).collect::<String>());
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    check: &Check,
    env: &Env,
    evals: u64,
    distinct: u64,
    stats: &BTreeMap<&'static str, u64>,
    samples: &[String],
    phases: &[(String, u64, f64)],
    wall: f64,
    failures: &[Failure],
    fresh: usize,
    timed_out: bool,
    known: &[Known],
) {
    let mut s = String::from("{\n");
    let _ = write!(s, " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", js(check.id), js(if env.tier == Tier::Quick { "quick" } else { "thorough" }), env.seed, js(check.level));
    let _ = write!(s, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", evals, distinct, js(check.rule));
    let _ = write!(s, "  \"samples\": [{}],\n", samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(s, "  \"observed\": {{{}}},\n", stats.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(s, "  \"phases\": [{}],\n", phases.iter().map(|(n, c, w)| format!("{{\"name\": {}, \"cases\": {}, \"wall_s\": {:.2}}}", js(n), c, w)).collect::<Vec<_>>().join(", "));
    let _ = write!(s, "  \"known_findings_observed\": {},\n", failures.iter().filter(|f| known.iter().any(|k| k.sig == f.sig)).count());
    let _ = write!(s, "  \"time_cap_reached\": {}{}\n }},\n", timed_out, if check.exhaustive { ",\n  \"exhaustive\": true" } else { "" });
    let _ = write!(s, " \"assumptions\": [{}],\n", check.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(s, " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, fresh);
    let dir = format!("{}/evidence", env.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = std::env::var("MON_EVIDENCE").unwrap_or_else(|_| format!("{}/{}.json", dir, check.id));
    std::fs::write(path, s).expect("write evidence");
}
