//! The explorer.
//!
//! A property describes a finite space of cases (an operation of the library and
//! the reference trees it is applied to) and decides each one.  The engine walks
//! the whole space: it is split over worker processes by case number, every call
//! into the implementation runs under `catch_unwind`, and a worker that dies
//! (stack overflow, abort, memory limit) or burns its time on one call is
//! attributed to that call and restarted behind it.

use crate::tree::{parse, T};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::fmt;
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Case {
    pub op: String,
    pub args: Vec<T>,
}

impl Case {
    pub fn new(op: impl Into<String>, args: impl IntoIterator<Item = T>) -> Case {
        Case {
            op: op.into(),
            args: args.into_iter().collect(),
        }
    }
    pub fn parse(s: &str) -> Case {
        let mut p = s.split(" | ");
        let op = p.next().unwrap().trim().to_string();
        Case {
            op,
            args: p.map(parse).collect(),
        }
    }
    fn weight(&self) -> usize {
        self.args.iter().map(T::size).sum()
    }
}

impl fmt::Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.op)?;
        for a in &self.args {
            write!(f, " | {a}")?;
        }
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<X>(self, q: X, t: X) -> X {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

pub type Emit<'a> = &'a mut dyn FnMut(Case);

pub struct Prop {
    pub id: &'static str,
    /// the initial cases, in a fixed order
    pub cases: fn(Tier, Emit),
    pub check: fn(&Case, &mut Out),
    /// cases for a state that was reached by a real operation (breadth-first
    /// continuation); depth is the number of operations that led here
    pub follow: fn(&T, usize, Tier) -> Vec<Case>,
    pub bounds: fn(Tier) -> String,
    pub assumptions: &'static [&'static str],
}

pub fn no_follow(_: &T, _: usize, _: Tier) -> Vec<Case> {
    vec![]
}

/// What one case produced.
pub struct Out<'w> {
    w: &'w mut Worker,
    case: Case,
    depth: usize,
    succ: Vec<T>,
    pub verbose: bool,
}

#[derive(Clone, Debug)]
pub struct Panicked(pub String);

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    /// did it happen in a file of the explorer itself?
    static PANIC_HERE: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i
            .location()
            .map(|l| {
                let f = l.file();
                // keep the message free of machine-specific prefixes
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{f}:{}", l.line())
            })
            .unwrap_or_default();
        let m: String = m.chars().take(200).collect();
        // the crates under test are compiled with absolute paths, this one is not
        PANIC_HERE.with(|h| h.set(i.location().is_none_or(|l| !l.file().starts_with('/'))));
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic outside a guarded call: {m} ({loc})");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} ({loc})"));
    }));
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| Panicked(LAST_PANIC.with(|p| p.borrow().clone())))
}

impl Out<'_> {
    pub fn depth(&self) -> usize {
        self.depth
    }
    /// call into the implementation; a panic is reported as a violation of the
    /// property under check
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match self.attempt(f) {
            Ok(r) => Some(r),
            Err(p) => {
                self.fail("panic", format!("{what} panicked: {}", p.0));
                None
            }
        }
    }
    /// as `call`, with the panic left to the caller
    pub fn attempt<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, Panicked> {
        self.w.status.add(ST_TRANS, 1);
        guarded(f)
    }
    /// an oracle comparison that could have failed
    pub fn compared(&mut self) {
        self.w.status.add(ST_CMP, 1);
    }
    pub fn vacuous(&mut self) {
        self.w.status.add(ST_VAC, 1);
    }
    /// a state (reference tree) that was visited
    pub fn state(&mut self, t: &T) {
        let k = t.key();
        self.w.state_key(k);
    }
    pub fn state_key(&mut self, k: u64) {
        self.w.state_key(k);
    }
    /// a state to continue from
    pub fn succ(&mut self, t: T) {
        self.succ.push(t)
    }
    pub fn note(&mut self, what: &str, n: u64) {
        *self.w.notes.entry(what.to_string()).or_default() += n;
    }
    pub fn fail(&mut self, kind: &str, detail: String) {
        let case = self.case.clone();
        self.w.violation(&case, kind, &detail);
    }
    pub fn check(&mut self, ok: bool, kind: &str, detail: impl FnOnce() -> String) -> bool {
        self.compared();
        if !ok {
            self.fail(kind, detail());
        }
        ok
    }
}

// ---------------------------------------------------------------------------
// shared status page

const ST_CASE: usize = 0; // number of the case being run, IDLE in between
const ST_TRANS: usize = 1;
const ST_CMP: usize = 2;
const ST_VAC: usize = 3;
const ST_DONE: usize = 4; // 1: finished, 2: stopped early
const ST_CASES: usize = 5;
const ST_FOLLOW: usize = 6;
const ST_TEXT: usize = 8; // length of text, text starts at word 9
const ST_BYTES: usize = 1 << 16;
const IDLE: u64 = u64::MAX;

pub struct Status {
    p: *mut u64,
}
impl Status {
    fn open(path: &Path) -> Status {
        use std::os::fd::AsRawFd;
        let f = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap();
        f.set_len(ST_BYTES as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                ST_BYTES,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Status { p: p as *mut u64 }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { self.p.add(i).read_volatile() }
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { self.p.add(i).write_volatile(v) }
    }
    fn add(&self, i: usize, v: u64) {
        self.set(i, self.get(i) + v)
    }
    fn set_text(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(ST_BYTES - 9 * 8);
        self.set(ST_TEXT, 0);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), (self.p as *mut u8).add(72), n) }
        self.set(ST_TEXT, n as u64);
    }
    fn text(&self) -> String {
        let n = self.get(ST_TEXT) as usize;
        let b = unsafe { std::slice::from_raw_parts((self.p as *const u8).add(72), n) };
        String::from_utf8_lossy(b).into_owned()
    }
}

// ---------------------------------------------------------------------------
// worker

pub struct Worker {
    status: Status,
    states: HashSet<u64, BuildId>,
    state_out: Option<std::io::BufWriter<fs::File>>,
    viol_out: Option<fs::File>,
    seen_viol: HashSet<String>,
    known: BTreeSet<String>,
    unknown_viol: usize,
    notes: BTreeMap<String, u64>,
    samples: Vec<String>,
    verbose: bool,
}

#[derive(Default, Clone)]
pub struct Id(u64);
impl std::hash::Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i
    }
}
pub type BuildId = std::hash::BuildHasherDefault<Id>;

/// give up on a worker's share once this many unlisted violations were found:
/// the verdict is settled
const ENOUGH: usize = 150;

impl Worker {
    fn state_key(&mut self, k: u64) {
        if self.states.insert(k) {
            if let Some(o) = &mut self.state_out {
                o.write_all(&k.to_le_bytes()).unwrap();
            }
        }
    }
    fn violation(&mut self, c: &Case, kind: &str, detail: &str) {
        let detail: String = detail.replace(['\n', '\t'], " ").chars().take(1500).collect();
        let key = format!("{c}\t{kind}");
        if self.verbose {
            println!("  {kind}: {detail}");
        }
        if !self.seen_viol.insert(key.clone()) {
            return;
        }
        if !self.known.contains(&key) {
            self.unknown_viol += 1;
        }
        if let Some(f) = &mut self.viol_out {
            writeln!(f, "{}\t{key}\t{detail}", c.weight()).unwrap();
        }
    }
}

fn run_case(w: &mut Worker, p: &Prop, c: &Case, depth: usize) -> Vec<T> {
    let mut o = Out {
        w,
        case: c.clone(),
        depth,
        succ: vec![],
        verbose: false,
    };
    o.verbose = o.w.verbose;
    // calls into the implementation are guarded individually; what is left are the
    // constructors that set up a case (their panics count as well), and errors of
    // the explorer itself, which end the worker
    if let Err(e) = guarded(|| (p.check)(c, &mut o)) {
        if PANIC_HERE.with(|h| h.get()) {
            eprintln!("{}", e.0);
            std::process::exit(101);
        }
        o.fail("panic", format!("setting up the case panicked: {}", e.0));
    }
    let Out { succ, .. } = o;
    succ
}

pub struct WorkerArgs {
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub dir: PathBuf,
    pub skip: HashSet<u64>,
    pub known: BTreeSet<String>,
}

pub fn worker(p: &Prop, a: &WorkerArgs) {
    let status = Status::open(&a.dir.join(format!("status.{}", a.shard)));
    for i in 0..9 {
        status.set(i, 0);
    }
    status.set(ST_CASE, IDLE);
    let file = |n: &str| a.dir.join(format!("{n}.{}", a.shard));
    let mut w = Worker {
        status,
        states: Default::default(),
        state_out: Some(std::io::BufWriter::new(
            fs::File::create(file("states")).unwrap(),
        )),
        viol_out: Some(
            fs::OpenOptions::new()
                .append(true)
                .create(true)
                .open(file("viol"))
                .unwrap(),
        ),
        seen_viol: Default::default(),
        known: a.known.clone(),
        unknown_viol: 0,
        notes: Default::default(),
        samples: vec![],
        verbose: false,
    };
    let mut n: u64 = 0;
    let mut queue: VecDeque<(Case, usize)> = Default::default();
    let mut followed: HashSet<u64, BuildId> = Default::default();
    let mut local: u64 = 0;
    let mut total: u64 = 0;
    // for finding cases that are too expensive for their space
    let slow: Option<f64> = std::env::var("MC_SLOW").ok().and_then(|s| s.parse().ok());
    let mut one = |w: &mut Worker, c: Case, depth: usize, queue: &mut VecDeque<(Case, usize)>| {
        let idx = n;
        n += 1;
        if a.skip.contains(&idx) || w.unknown_viol >= ENOUGH {
            return;
        }
        w.status.set(ST_CASE, idx);
        w.status.set_text(&c.to_string());
        for t in &c.args {
            let k = t.key();
            w.state_key(k);
        }
        let start = slow.map(|_| Instant::now());
        let succ = run_case(w, p, &c, depth);
        if let (Some(s), Some(t)) = (start, slow) {
            if s.elapsed().as_secs_f64() > t {
                use std::io::Write;
                let mut f = fs::OpenOptions::new().append(true).create(true).open("/tmp/mc-slow").unwrap();
                let _ = writeln!(f, "{} {:.1} s: {c}", p.id, s.elapsed().as_secs_f64());
            }
        }
        w.status.set(ST_CASE, IDLE);
        w.status.add(ST_CASES, 1);
        if depth > 0 {
            w.status.add(ST_FOLLOW, 1);
        }
        if idx == 0 || idx.is_power_of_two() {
            w.samples.push(c.to_string());
        }
        for t in succ {
            if followed.insert(t.key()) {
                for c in (p.follow)(&t, depth + 1, a.tier) {
                    queue.push_back((c, depth + 1));
                }
            }
        }
    };
    {
        let w = &mut w;
        let queue = &mut queue;
        (p.cases)(a.tier, &mut |c| {
            total += 1;
            // spread by content, so that neighbouring (similarly expensive) cases
            // land on different workers
            if spread(total) % a.nshards == a.shard {
                local += 1;
                one(w, c, 0, queue);
                while let Some((c, d)) = queue.pop_front() {
                    one(w, c, d, queue);
                }
            }
        });
    }
    w.state_out.take().unwrap().into_inner().unwrap();
    let mut meta = fs::File::create(file("meta")).unwrap();
    for (k, v) in &w.notes {
        writeln!(meta, "note\t{k}\t{v}").unwrap();
    }
    for s in &w.samples {
        writeln!(meta, "sample\t{s}").unwrap();
    }
    writeln!(meta, "initial\t{total}").unwrap();
    w.status
        .set(ST_DONE, if w.unknown_viol >= ENOUGH { 2 } else { 1 });
}

fn spread(i: u64) -> u64 {
    let mut z = i.wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 29)).wrapping_mul(0xbf58476d1ce4e5b9);
    z ^ (z >> 32)
}

pub fn replay(p: &Prop, case: &Case) -> bool {
    let dir = std::env::temp_dir().join(format!("mc-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let mut w = Worker {
        status: Status::open(&dir.join("status")),
        states: Default::default(),
        state_out: None,
        viol_out: None,
        seen_viol: Default::default(),
        known: Default::default(),
        unknown_viol: 0,
        notes: Default::default(),
        samples: vec![],
        verbose: true,
    };
    run_case(&mut w, p, case, 0);
    let _ = fs::remove_dir_all(&dir);
    w.unknown_viol > 0
}

// ---------------------------------------------------------------------------
// parent

pub struct Violation {
    pub weight: usize,
    pub case: String,
    pub kind: String,
    pub detail: String,
}

pub struct Summary {
    pub states: u64,
    pub transitions: u64,
    pub compared: u64,
    pub vacuous: u64,
    pub cases: u64,
    pub initial: u64,
    pub followed: u64,
    pub notes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub complete: bool,
    pub why_incomplete: Vec<String>,
}

struct Child {
    proc: std::process::Child,
    skip: Vec<u64>,
    deaths: usize,
    hangs: usize,
    last: (u64, f64),
    done: bool,
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let s = s.rsplit(')').next()?;
    let f: Vec<&str> = s.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

/// CPU seconds one case may take before it counts as not terminating
pub const CASE_CPU: f64 = 45.0;

pub fn explore(p: &Prop, tier: Tier, dir: &Path, known: &BTreeSet<String>, deadline: Duration) -> Summary {
    let nshards: u64 = std::env::var("MC_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(2, 8));
    if p.id == "C18" {
        crate::props::notation::prepare(tier);
    }
    if p.id == "C20" {
        crate::props::builtins::prepare(tier);
    }
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let known_file = dir.join("known");
    fs::write(
        &known_file,
        known.iter().map(|s| format!("{s}\n")).collect::<String>(),
    )
    .unwrap();
    let spawn = |shard: u64, skip: &[u64]| {
        std::process::Command::new(&exe)
            .arg("worker")
            .arg(p.id)
            .arg(tier.name())
            .arg(shard.to_string())
            .arg(nshards.to_string())
            .arg(dir)
            .arg(
                skip.iter()
                    .map(|s| s.to_string())
                    .collect::<Vec<_>>()
                    .join(","),
            )
            .stdin(std::process::Stdio::null())
            .stderr(fs::File::create(dir.join(format!("stderr.{shard}"))).unwrap())
            .spawn()
            .expect("cannot start a worker")
    };
    let status: Vec<Status> = (0..nshards)
        .map(|s| Status::open(&dir.join(format!("status.{s}"))))
        .collect();
    let mut kids: Vec<Child> = (0..nshards)
        .map(|s| Child {
            proc: spawn(s, &[]),
            skip: vec![],
            deaths: 0,
            hangs: 0,
            last: (u64::MAX, 0.0),
            done: false,
        })
        .collect();
    let start = Instant::now();
    let mut why = vec![];
    let mut extra: Vec<Violation> = vec![];
    loop {
        let mut live = false;
        for s in 0..nshards as usize {
            let k = &mut kids[s];
            if k.done {
                continue;
            }
            live = true;
            let st = &status[s];
            let mut died: Option<(&str, String)> = None;
            match k.proc.try_wait().unwrap() {
                Some(code) => {
                    if code.success() {
                        k.done = true;
                        if st.get(ST_DONE) == 2 {
                            why.push(format!("worker {s} stopped after {ENOUGH} violations"));
                        }
                        continue;
                    }
                    use std::os::unix::process::ExitStatusExt;
                    if code.code() == Some(101) || code.code() == Some(2) {
                        let e = fs::read_to_string(dir.join(format!("stderr.{s}"))).unwrap_or_default();
                        eprintln!("harness error in worker {s} at {}:\n{e}", st.text());
                        std::process::exit(3);
                    }
                    k.deaths += 1;
                    died = Some((
                        "crash",
                        format!(
                            "the process died (signal {:?}, exit {:?}): stack overflow, abort or memory exhausted",
                            code.signal(),
                            code.code()
                        ),
                    ));
                }
                None => {
                    let c = st.get(ST_CASE);
                    let cpu = cpu_seconds(k.proc.id()).unwrap_or(0.0);
                    if c != k.last.0 || c == IDLE {
                        k.last = (c, cpu);
                    } else if cpu - k.last.1 > CASE_CPU && st.get(ST_DONE) == 0 {
                        let _ = k.proc.kill();
                        let _ = k.proc.wait();
                        k.hangs += 1;
                        died = Some(("hang", format!("no result after {CASE_CPU} s of CPU time")));
                    }
                }
            }
            if let Some((kind, detail)) = died {
                let idx = st.get(ST_CASE);
                let text = st.text();
                if idx == IDLE {
                    eprintln!("harness error: worker {s} died between two cases, after {text}");
                    std::process::exit(3);
                }
                let weight = Case::parse(&text).weight();
                if k.skip.contains(&idx) {
                    eprintln!("harness error: worker {s} died twice on case {idx}: {text}");
                    std::process::exit(3);
                }
                extra.push(Violation {
                    weight,
                    case: text,
                    kind: kind.into(),
                    detail,
                });
                k.skip.push(idx);
                if k.hangs >= 2 || k.deaths >= 12 {
                    k.done = true;
                    why.push(format!(
                        "worker {s} given up after {} crashes and {} hangs",
                        k.deaths, k.hangs
                    ));
                } else {
                    k.proc = spawn(s as u64, &k.skip);
                    k.last = (u64::MAX, 0.0);
                }
            }
        }
        if !live {
            break;
        }
        if start.elapsed() > deadline {
            why.push(format!("stopped at the {} s deadline", deadline.as_secs()));
            for k in &mut kids {
                if !k.done {
                    let _ = k.proc.kill();
                    let _ = k.proc.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // collect
    let mut sum = Summary {
        states: 0,
        transitions: 0,
        compared: 0,
        vacuous: 0,
        cases: 0,
        initial: 0,
        followed: 0,
        notes: Default::default(),
        samples: vec![],
        violations: extra,
        complete: why.is_empty(),
        why_incomplete: why,
    };
    let mut states: HashSet<u64, BuildId> = Default::default();
    let mut seen = BTreeSet::new();
    for s in 0..nshards as usize {
        let st = &status[s];
        sum.transitions += st.get(ST_TRANS);
        sum.compared += st.get(ST_CMP);
        sum.vacuous += st.get(ST_VAC);
        sum.cases += st.get(ST_CASES);
        sum.followed += st.get(ST_FOLLOW);
        if let Ok(b) = fs::read(dir.join(format!("states.{s}"))) {
            for c in b.chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Ok(m) = fs::read_to_string(dir.join(format!("meta.{s}"))) {
            for l in m.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "note" => {
                        *sum.notes.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap()
                    }
                    "sample" => sum.samples.push(f[1].into()),
                    "initial" => sum.initial = f[1].parse().unwrap(),
                    _ => (),
                }
            }
        }
        if let Ok(v) = fs::read_to_string(dir.join(format!("viol.{s}"))) {
            for l in v.lines() {
                let f: Vec<&str> = l.splitn(4, '\t').collect();
                if f.len() == 4 && seen.insert((f[1].to_string(), f[2].to_string())) {
                    sum.violations.push(Violation {
                        weight: f[0].parse().unwrap(),
                        case: f[1].into(),
                        kind: f[2].into(),
                        detail: f[3].into(),
                    });
                }
            }
        }
    }
    sum.states = states.len() as u64;
    sum.violations
        .sort_by(|a, b| (a.weight, &a.case, &a.kind).cmp(&(b.weight, &b.case, &b.kind)));
    let _ = fs::remove_dir_all(dir);
    sum
}

pub fn limit_memory() {
    let lim = libc::rlimit {
        rlim_cur: 4 << 30,
        rlim_max: 4 << 30,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}
