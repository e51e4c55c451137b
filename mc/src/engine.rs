//! A small stateless model checker.
//!
//! A *suite* is a function which makes every nondeterministic decision through [`Ch`]: which
//! document, operation, or answer of the environment comes next. The engine runs the suite once
//! for every sequence of decisions (depth first, split over worker threads), so that the space
//! the suite spans is enumerated completely. `Ch::dev` makes a decision whose first alternative
//! is the default, and whose other alternatives each use up one of a bounded number of
//! deviations.
//!
//! A violation is identified by its sequence of decisions, which replays it exactly. The
//! exploration runs in a forked child, which a supervisor watches: an abort, a stack overflow, an
//! exhausted memory or a hang in the code under test is a violation, too.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Allocator: measures the memory used by a piece of code, and refuses runaway allocations.

pub struct Alloc;

const REFUSE_SINGLE: usize = 1 << 30;
const REFUSE_TOTAL: isize = 3 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

fn account(delta: isize) {
    let _ = LIVE.try_with(|live| {
        let now = live.get() + delta;
        live.set(now);
        let _ = PEAK.try_with(|peak| {
            if now > peak.get() {
                peak.set(now)
            }
        });
    });
}

fn refuse(size: usize) -> bool {
    let _ = LARGEST.try_with(|l| {
        if size > l.get() {
            l.set(size)
        }
    });
    size > REFUSE_SINGLE || LIVE.try_with(|l| l.get() + size as isize > REFUSE_TOTAL).unwrap_or(false)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if refuse(new) {
            return std::ptr::null_mut();
        }
        account(new as isize - l.size() as isize);
        System.realloc(p, l, new)
    }
}

/// Peak of the memory allocated by `f` above what was live before, and the largest single
/// request it made (also counting requests which were refused).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|l| l.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, peak.max(0) as usize, LARGEST.with(|l| l.get()))
}

// ---------------------------------------------------------------------------------------------

pub type Outcome = Result<(), String>;
pub type Body = fn(&mut Ch) -> Outcome;

#[derive(Clone, Copy)]
pub struct Suite {
    pub name: &'static str,
    /// What is enumerated and within which bound.
    pub what: &'static str,
    pub body: Body,
    /// Deviation bound for `Ch::dev`: (quick, thorough).
    pub devs: (u32, u32),
    /// Other bound of the suite, read through `Ch::bound`: (quick, thorough).
    pub bound: (u32, u32),
}

impl Suite {
    pub const fn new(name: &'static str, what: &'static str, body: Body) -> Suite {
        Suite { name, what, body, devs: (0, 0), bound: (0, 0) }
    }
    pub const fn devs(self, quick: u32, thorough: u32) -> Suite {
        Suite { devs: (quick, thorough), ..self }
    }
    pub const fn bound(self, quick: u32, thorough: u32) -> Suite {
        Suite { bound: (quick, thorough), ..self }
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: &'static [Suite],
}

const SLOT_CHOICES: usize = 1 << 14;

#[repr(C)]
struct Slot {
    beat: AtomicU64,
    busy: AtomicU32,
    suite: AtomicU32,
    len: AtomicU32,
    choices: [AtomicU32; SLOT_CHOICES],
}

/// The source of all decisions of one execution.
pub struct Ch<'a> {
    prefix: Vec<u32>,
    log: Vec<(u32, u32)>,
    devs_left: u32,
    bound: u32,
    tier_thorough: bool,
    slot: Option<&'a Slot>,
    explain: bool,
    note: String,
    w: &'a mut WorkerStats,
    diverged: bool,
}

#[derive(Default)]
pub struct WorkerStats {
    executions: u64,
    transitions: u64,
    impl_traces: u64,
    states: Vec<u64>,
    outcomes: BTreeMap<String, u64>,
    max_depth: usize,
}

impl<'a> Ch<'a> {
    /// Decide between `n` alternatives.
    #[inline]
    pub fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let i = self.log.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            if c >= n {
                self.diverged = true;
                n - 1
            } else {
                c
            }
        } else {
            0
        };
        if let Some(slot) = self.slot {
            if i < SLOT_CHOICES {
                slot.choices[i].store(c, Ordering::Relaxed);
                slot.len.store(i as u32 + 1, Ordering::Relaxed);
            }
        }
        self.log.push((c, n));
        c
    }

    /// Decide between `n` alternatives, of which all but the first use up a deviation.
    #[inline]
    pub fn dev(&mut self, n: u32) -> u32 {
        if self.devs_left == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.devs_left -= 1;
        }
        c
    }

    pub fn devs_left(&self) -> u32 {
        self.devs_left
    }

    /// Limit the number of deviations from here on.
    pub fn limit_devs(&mut self, n: u32) {
        self.devs_left = self.devs_left.min(n);
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn upto(&mut self, max: usize) -> usize {
        self.choose(max as u32 + 1) as usize
    }

    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.choose(items.len() as u32) as usize]
    }

    pub fn bound(&self) -> usize {
        self.bound as usize
    }

    pub fn thorough(&self) -> bool {
        self.tier_thorough
    }

    /// Count a distinct state of the model.
    pub fn state(&mut self, hash: u64) {
        self.w.states.push(hash);
    }

    /// Count transitions (operations, lines, answers of the environment) taken.
    pub fn steps(&mut self, n: usize) {
        self.w.transitions += n as u64;
    }

    /// Count executions of the real code which were compared with the model.
    pub fn traces(&mut self, n: usize) {
        self.w.impl_traces += n as u64;
    }

    /// Count an observed outcome, to see that the exploration is not vacuous.
    pub fn outcome(&mut self, label: &str) {
        match self.w.outcomes.get_mut(label) {
            Some(n) => *n += 1,
            None => {
                self.w.outcomes.insert(label.to_string(), 1);
            }
        }
    }

    /// Describe the case; only evaluated when a case is explained. Must precede the execution
    /// of the real code, so that a crash there can be explained.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.explain {
            let s = f();
            self.note.push_str(&s);
            self.note.push('\n');
            if std::env::var_os("MC_NOTE_STDERR").is_some() {
                eprintln!("{}", s);
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = s;
            }
        });
    }));
}

/// Run `f`, returning the panic message if it panicked.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

struct Run {
    log: Vec<(u32, u32)>,
    outcome: Outcome,
    note: String,
    diverged: bool,
}

fn run_once(
    suite: &Suite,
    thorough: bool,
    prefix: Vec<u32>,
    slot: Option<&Slot>,
    explain: bool,
    w: &mut WorkerStats,
) -> Run {
    if let Some(slot) = slot {
        slot.len.store(0, Ordering::Relaxed);
        slot.beat.fetch_add(1, Ordering::Relaxed);
    }
    let mut ch = Ch {
        prefix,
        log: Vec::with_capacity(32),
        devs_left: if thorough { suite.devs.1 } else { suite.devs.0 },
        bound: if thorough { suite.bound.1 } else { suite.bound.0 },
        tier_thorough: thorough,
        slot,
        explain,
        note: String::new(),
        w,
        diverged: false,
    };
    let outcome = match no_panic(|| (suite.body)(&mut ch)) {
        Ok(o) => o,
        Err(p) => Err(p),
    };
    let Ch { log, note, diverged, prefix, w, .. } = ch;
    w.executions += 1;
    w.max_depth = w.max_depth.max(log.len());
    let diverged = diverged || log.len() < prefix.len();
    Run { log, outcome, note, diverged }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub suite: &'static str,
    pub choices: Vec<u32>,
    pub message: String,
    pub note: String,
}

#[derive(Default)]
struct Shared {
    work: Mutex<Vec<Vec<u32>>>,
    stop: AtomicBool,
    violation: Mutex<Option<Violation>>,
}

pub struct SuiteReport {
    pub name: &'static str,
    pub what: String,
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub impl_traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub max_depth: usize,
    pub exhausted: bool,
    pub wall_s: f64,
    pub samples: Vec<String>,
}

const MAX_STATES: u64 = 60_000_000;

fn choices_of(log: &[(u32, u32)]) -> Vec<u32> {
    log.iter().map(|c| c.0).collect()
}

/// Enumerate the whole decision tree of the suite.
fn explore(
    suite: &'static Suite,
    suite_index: usize,
    thorough: bool,
    slots: &'static [Slot],
    deadline: Instant,
) -> (SuiteReport, Option<Violation>) {
    let started = Instant::now();
    let threads = slots.len();
    let shared = Shared::default();
    let seen: Vec<Mutex<HashSet<u64, Ident>>> = (0..64).map(|_| Mutex::new(HashSet::default())).collect();
    let seen_count = AtomicU64::new(0);
    let timed_out = AtomicBool::new(false);
    let totals = Mutex::new(WorkerStats::default());
    let samples: Mutex<Vec<Vec<u32>>> = Mutex::new(Vec::new());

    for s in slots {
        s.suite.store(suite_index as u32, Ordering::Relaxed);
    }

    // Split the tree into many prefixes, breadth first. The runs made here only discover the
    // branching; every leaf is run (again) and counted by a worker.
    {
        let mut frontier: Vec<Vec<u32>> = vec![vec![]];
        let mut leaves: Vec<Vec<u32>> = vec![];
        let mut scratch = WorkerStats::default();
        slots[0].busy.store(1, Ordering::Relaxed);
        while !frontier.is_empty() && frontier.len() + leaves.len() < threads * 48 {
            let mut next = vec![];
            for p in frontier.drain(..) {
                let n = p.len();
                let run = run_once(suite, thorough, p.clone(), Some(&slots[0]), false, &mut scratch);
                if run.log.len() <= n {
                    leaves.push(p);
                } else {
                    for c in 0..run.log[n].1 {
                        let mut q = p.clone();
                        q.push(c);
                        next.push(q);
                    }
                }
            }
            frontier = next;
        }
        slots[0].busy.store(0, Ordering::Relaxed);
        leaves.extend(frontier);
        leaves.reverse();
        *shared.work.lock().unwrap() = leaves;
    }

    std::thread::scope(|scope| {
        for slot in slots {
            let (shared, seen, seen_count, timed_out, totals, samples) =
                (&shared, &seen, &seen_count, &timed_out, &totals, &samples);
            let builder = std::thread::Builder::new().stack_size(16 << 20);
            builder
                .spawn_scoped(scope, move || {
                    slot.busy.store(1, Ordering::Relaxed);
                    let mut w = WorkerStats::default();
                    let flush = |states: &mut Vec<u64>| {
                        for h in states.drain(..) {
                            if seen_count.load(Ordering::Relaxed) >= MAX_STATES {
                                continue;
                            }
                            if seen[(h >> 58) as usize].lock().unwrap().insert(h) {
                                seen_count.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                    };
                    'outer: loop {
                        let base = match shared.work.lock().unwrap().pop() {
                            Some(p) => p,
                            None => break,
                        };
                        let base_len = base.len();
                        let mut prefix = base;
                        loop {
                            if shared.stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if w.executions % 256 == 0 && Instant::now() > deadline {
                                timed_out.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            let plen = prefix.len();
                            let run = run_once(suite, thorough, prefix, Some(slot), false, &mut w);
                            w.transitions += (run.log.len() + 1).saturating_sub(plen) as u64;
                            if run.diverged {
                                let mut v = shared.violation.lock().unwrap();
                                v.get_or_insert(Violation {
                                    suite: suite.name,
                                    choices: choices_of(&run.log),
                                    message: "HARNESS: diverged while replaying a prefix".into(),
                                    note: String::new(),
                                });
                                shared.stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            if let Err(message) = run.outcome {
                                let mut v = shared.violation.lock().unwrap();
                                let choices = choices_of(&run.log);
                                if v.as_ref().map_or(true, |v| choices.len() < v.choices.len()) {
                                    *v = Some(Violation { suite: suite.name, choices, message, note: String::new() });
                                }
                                shared.stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            if w.executions.is_power_of_two() && (w.executions == 64 || w.executions == 4096) {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 2 {
                                    s.push(choices_of(&run.log));
                                }
                            }
                            if w.states.len() >= 4096 {
                                flush(&mut w.states);
                            }
                            // Backtrack to the last decision with an alternative left.
                            let mut log = run.log;
                            while log.len() > base_len {
                                let (c, n) = log[log.len() - 1];
                                if c + 1 < n {
                                    break;
                                }
                                log.pop();
                            }
                            if log.len() <= base_len {
                                break;
                            }
                            let last = log.len() - 1;
                            log[last].0 += 1;
                            prefix = choices_of(&log);
                        }
                    }
                    flush(&mut w.states);
                    slot.busy.store(0, Ordering::Relaxed);
                    let mut t = totals.lock().unwrap();
                    t.executions += w.executions;
                    t.transitions += w.transitions;
                    t.impl_traces += w.impl_traces;
                    t.max_depth = t.max_depth.max(w.max_depth);
                    for (k, v) in w.outcomes {
                        *t.outcomes.entry(k).or_default() += v;
                    }
                })
                .unwrap();
        }
    });

    let mut violation = shared.violation.into_inner().unwrap();
    let mut scratch = WorkerStats::default();
    if let Some(v) = violation.as_mut() {
        let again = run_once(suite, thorough, v.choices.clone(), None, true, &mut scratch);
        v.note = again.note;
        match again.outcome {
            Err(m) if m == v.message => {}
            Err(m) => {
                let _ = write!(v.note, "replayed: also fails, with: {}", m);
            }
            Ok(()) => v.note.push_str("replayed: did not fail again (the code is not deterministic)"),
        }
    }
    let mut sample_notes = vec![];
    if violation.is_none() {
        let mut list = samples.into_inner().unwrap();
        list.insert(0, vec![]);
        for p in list {
            let run = run_once(suite, thorough, p, None, true, &mut scratch);
            let mut note = format!("[{}] {}", suite.name, run.note.trim_end());
            if note.len() > 1500 {
                let mut k = 1500;
                while !note.is_char_boundary(k) {
                    k -= 1;
                }
                note.truncate(k);
                note.push_str(" ...");
            }
            sample_notes.push(note);
        }
    }
    let t = totals.into_inner().unwrap();
    let report = SuiteReport {
        name: suite.name,
        what: format!(
            "{} (deviations <= {}, bound {})",
            suite.what,
            if thorough { suite.devs.1 } else { suite.devs.0 },
            if thorough { suite.bound.1 } else { suite.bound.0 }
        ),
        executions: t.executions,
        states: seen_count.load(Ordering::Relaxed),
        transitions: t.transitions,
        impl_traces: t.impl_traces,
        outcomes: t.outcomes,
        max_depth: t.max_depth,
        exhausted: !timed_out.load(Ordering::Relaxed) && violation.is_none(),
        wall_s: started.elapsed().as_secs_f64(),
        samples: sample_notes,
    };
    (report, violation)
}

#[derive(Default, Clone, Copy)]
pub struct Ident;
pub struct IdentHasher(u64);
impl std::hash::BuildHasher for Ident {
    type Hasher = IdentHasher;
    fn build_hasher(&self) -> IdentHasher {
        IdentHasher(0)
    }
}
impl std::hash::Hasher for IdentHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

/// FNV-1a with a finalizer.
pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for chunk in bytes.chunks(8) {
        let mut v = [0u8; 8];
        v[..chunk.len()].copy_from_slice(chunk);
        h = (h ^ u64::from_le_bytes(v)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h = (h ^ bytes.len() as u64).wrapping_mul(0xBF58476D1CE4E5B9);
    h ^= h >> 32;
    h = h.wrapping_mul(0x94D049BB133111EB);
    h ^ (h >> 29)
}

pub fn hash_debug<T: std::fmt::Debug>(v: &T) -> u64 {
    hash_bytes(format!("{:?}", v).as_bytes())
}

// ---------------------------------------------------------------------------------------------
// JSON (output only; and just enough input for replay files)

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn write_replay(prop: &str, thorough: bool, v: &Violation) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", prop, v.suite));
    let choices: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"suite\": {},\n \"choices\": [{}],\n \"message\": {},\n \"case\": {},\n \"replay\": {}\n}}\n",
        json_str(prop),
        json_str(if thorough { "thorough" } else { "quick" }),
        json_str(v.suite),
        choices.join(","),
        json_str(&v.message),
        json_str(&v.note),
        json_str(&format!("/verif/check.sh replay {}", path.display())),
    );
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

pub fn write_evidence(
    prop: &Property,
    thorough: bool,
    reports: &[SuiteReport],
    wall: f64,
    violations: usize,
    explanation: &str,
) {
    let sum = |f: fn(&SuiteReport) -> u64| reports.iter().map(f).sum::<u64>();
    let mut suites = vec![];
    for r in reports {
        let outcomes: Vec<String> =
            r.outcomes.iter().take(60).map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        suites.push(format!(
            "{{\"suite\": {}, \"enumerates\": {}, \"executions\": {}, \"distinct_states\": {}, \"transitions\": {}, \"impl_traces\": {}, \"max_decisions\": {}, \"exhausted\": {}, \"wall_s\": {:.2}, \"distinct_outcomes\": {}, \"outcomes\": {{{}}}}}",
            json_str(r.name), json_str(&r.what), r.executions, r.states, r.transitions, r.impl_traces,
            r.max_depth, r.exhausted, r.wall_s, r.outcomes.len(), outcomes.join(", ")
        ));
    }
    let samples: Vec<String> = reports.iter().flat_map(|r| r.samples.iter()).map(|s| json_str(s)).collect();
    let assumptions: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    let exhaustive = !reports.is_empty() && reports.iter().all(|r| r.exhausted) && violations == 0;
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"suites\": [\n   {}\n  ],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        json_str(prop.level),
        sum(|r| r.states),
        sum(|r| r.transitions),
        sum(|r| r.impl_traces),
        sum(|r| r.executions),
        sum(|r| r.states),
        json_str(prop.rule),
        exhaustive,
        json_str(explanation),
        suites.join(",\n   "),
        samples.join(", "),
        assumptions.join(", "),
        wall,
        violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop.id)), text).expect("evidence");
}

// ---------------------------------------------------------------------------------------------
// Supervisor

fn map_slots(n: usize) -> &'static [Slot] {
    let size = std::mem::size_of::<Slot>() * n;
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        std::slice::from_raw_parts(p as *const Slot, n)
    }
}

enum ChildEnd {
    Exit(i32),
    Signal(i32),
    Hang(usize),
}

/// Fork `f`, and wait for it. A busy slot which makes no progress for `stall` is a hang.
fn fork_and_watch(slots: &'static [Slot], stall: Duration, f: impl FnOnce() -> i32) -> ChildEnd {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            // Die with the supervisor, and leave no core files.
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let code = f();
            let _ = std::io::stdout().flush();
            libc::_exit(code);
        }
        let mut last: Vec<(u64, Instant)> = slots.iter().map(|s| (s.beat.load(Ordering::Relaxed), Instant::now())).collect();
        let mut nap = 1;
        loop {
            let mut status = 0;
            let r = libc::waitpid(pid, &mut status, libc::WNOHANG);
            if r == pid {
                if libc::WIFEXITED(status) {
                    return ChildEnd::Exit(libc::WEXITSTATUS(status));
                }
                return ChildEnd::Signal(libc::WTERMSIG(status));
            }
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap * 2).min(50);
            for (i, s) in slots.iter().enumerate() {
                let b = s.beat.load(Ordering::Relaxed);
                if b != last[i].0 || s.busy.load(Ordering::Relaxed) == 0 {
                    last[i] = (b, Instant::now());
                } else if last[i].1.elapsed() > stall {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut status, 0);
                    return ChildEnd::Hang(i);
                }
            }
        }
    }
}

fn slot_case(s: &Slot) -> (usize, Vec<u32>) {
    let n = (s.len.load(Ordering::Relaxed) as usize).min(SLOT_CHOICES);
    (
        s.suite.load(Ordering::Relaxed) as usize,
        (0..n).map(|i| s.choices[i].load(Ordering::Relaxed)).collect(),
    )
}

/// Explore all suites of the property. Returns the exit code.
pub fn check(prop: &'static Property, thorough: bool) -> i32 {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    let slots = map_slots(threads);
    let started = Instant::now();
    let budget = if thorough { 3000 } else { 600 };
    let deadline = started + Duration::from_secs(budget);
    let end = fork_and_watch(slots, Duration::from_secs(60), || {
        let mut reports = vec![];
        for (i, suite) in prop.suites.iter().enumerate() {
            let (report, violation) = explore(suite, i, thorough, slots, deadline);
            println!(
                "{} {}: executions={} states={} transitions={} outcomes={} {:.1}s{}",
                prop.id, report.name, report.executions, report.states, report.transitions,
                report.outcomes.len(), report.wall_s,
                if report.exhausted { "" } else { " (not exhausted)" }
            );
            reports.push(report);
            if let Some(v) = violation {
                if v.message.starts_with("HARNESS") {
                    println!("{}: {}", prop.id, v.message);
                    return 2;
                }
                let path = write_replay(prop.id, thorough, &v);
                println!("case:\n{}", v.note);
                println!("failed: {}", v.message);
                println!("VIOLATION property={} replay={}", prop.id, path);
                write_evidence(prop, thorough, &reports, started.elapsed().as_secs_f64(), 1, &v.message);
                return 1;
            }
        }
        if reports.iter().any(|r| r.executions == 0) {
            println!("{}: a suite ran nothing", prop.id);
            return 2;
        }
        write_evidence(prop, thorough, &reports, started.elapsed().as_secs_f64(), 0, "");
        0
    });
    let suspects: Vec<usize> = match end {
        ChildEnd::Exit(c) => return c,
        ChildEnd::Signal(s) => {
            println!("{}: the explored code ended the process (signal {})", prop.id, s);
            (0..threads).collect()
        }
        ChildEnd::Hang(i) => {
            println!("{}: no progress in one execution for 60 s", prop.id);
            vec![i]
        }
    };
    // Find the execution which did it, by running each candidate on its own.
    for i in suspects {
        let (suite_index, choices) = slot_case(&slots[i]);
        let suite = &prop.suites[suite_index];
        let probe = map_slots(1);
        probe[0].busy.store(1, Ordering::Relaxed);
        let (c2, s2) = (choices.clone(), suite);
        let end = fork_and_watch(probe, Duration::from_secs(30), move || {
            install_panic_hook();
            let mut w = WorkerStats::default();
            run_once(s2, thorough, c2, None, false, &mut w);
            0
        });
        let message = match end {
            ChildEnd::Exit(_) => continue,
            ChildEnd::Signal(s) => format!("the process was ended by signal {} (abort, stack overflow or exhausted memory)", s),
            ChildEnd::Hang(_) => "the execution does not terminate".to_string(),
        };
        let v = Violation {
            suite: suite.name,
            choices,
            message: message.clone(),
            note: "run the replay command to print the case".into(),
        };
        let path = write_replay(prop.id, thorough, &v);
        println!("failed: {}", message);
        println!("VIOLATION property={} replay={}", prop.id, path);
        write_evidence(prop, thorough, &[], started.elapsed().as_secs_f64(), 1, &message);
        return 1;
    }
    println!("{}: the crash could not be reproduced", prop.id);
    2
}

/// Replay a file written by `write_replay`: prints the case and the outcome.
pub fn replay(props: &'static [&'static Property], path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let field = |name: &str| -> String {
        let key = format!("\"{}\": \"", name);
        let i = text.find(&key).expect(name) + key.len();
        text[i..].split('"').next().unwrap().to_string()
    };
    let i = text.find("\"choices\": [").expect("choices") + 12;
    let list = text[i..].split(']').next().unwrap();
    let choices: Vec<u32> = list.split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    let prop = props.iter().find(|p| p.id == field("property")).expect("property");
    let suite = prop.suites.iter().find(|s| s.name == field("suite")).expect("suite");
    let thorough = field("tier") == "thorough";
    std::env::set_var("MC_NOTE_STDERR", "1");
    let mut w = WorkerStats::default();
    let run = run_once(suite, thorough, choices, None, true, &mut w);
    match run.outcome {
        Ok(()) => {
            println!("replay: the property held on this execution");
            0
        }
        Err(m) => {
            println!("replay: {}", m);
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
    }
}
