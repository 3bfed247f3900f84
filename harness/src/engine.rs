//! Search engine: every generated case is a sequence of integer choices, so that any case can be
//! shrunk (fewer and smaller choices) and replayed from a file.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

static OUT: OnceLock<Mutex<std::fs::File>> = OnceLock::new();

/// Writes a line of the report.
fn report(line: std::fmt::Arguments) {
    match OUT.get() {
        Some(f) => {
            use std::io::Write;
            writeln!(f.lock().expect("harness: report"), "{line}").expect("harness: report")
        }
        None => println!("{line}"),
    }
}
macro_rules! say {
    ($($a:tt)*) => { report(format_args!($($a)*)) };
}

/// Everything but the report goes nowhere: parts of the code under test print a lot.
#[allow(dead_code)]
pub fn quiet() {
    use std::os::fd::{AsRawFd, FromRawFd};
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(from: i32, to: i32) -> i32;
    }
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("harness: /dev/null");
    unsafe {
        let out = dup(1);
        assert!(out >= 0, "harness: dup");
        OUT.get_or_init(|| Mutex::new(std::fs::File::from_raw_fd(out)));
        assert!(dup2(null.as_raw_fd(), 1) >= 0, "harness: dup2");
    }
}

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn hash_choices(c: &[u64]) -> u64 {
    c.iter().fold(0x1234567, |h, b| mix(h ^ b.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(h << 1))
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
}

/// Source of choices, all randomness of a case comes from here.
pub struct Src {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(Rng(seed)), pos: 0, rec: Vec::new() }
    }
    fn replay(choices: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(choices), pos: 0, rec: Vec::new() }
    }
    /// integer in 0..n, shrinks towards 0
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "harness: empty range");
        let v = match &mut self.mode {
            Mode::Random(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// a..=b, shrinks towards a
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        a + self.below((b - a + 1) as u64) as usize
    }
    /// true with probability p/100, shrinks towards false
    pub fn chance(&mut self, p: u64) -> bool {
        // the recorded choice is 1 for true, so that it shrinks to false
        let r = match &mut self.mode {
            Mode::Random(r) => ((r.next() as u128 * 100) >> 64) < p as u128,
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0) != 0,
        };
        self.pos += 1;
        self.rec.push(r as u64);
        r
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }
    /// index by weight, shrinks towards 0
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        // recorded as the index
        let idx = match &mut self.mode {
            Mode::Random(r) => {
                let mut x = ((r.next() as u128 * total as u128) >> 64) as u64;
                let mut i = 0;
                while x >= weights[i] {
                    x -= weights[i];
                    i += 1;
                }
                i
            }
            Mode::Replay(c) => (c.get(self.pos).copied().unwrap_or(0) as usize).min(weights.len() - 1),
        };
        self.pos += 1;
        self.rec.push(idx as u64);
        idx
    }
    /// number in [0, 1), multiple of 2^-32, shrinks towards 0
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 32) as f64 / (1u64 << 32) as f64
    }
    /// number in [a, b], shrinks towards a
    pub fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    /// a permutation of 0..n, shrinks towards the identity
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below((n - i) as u64) as usize;
            p.swap(i, j);
        }
        p
    }
}

/// What a case reports besides its verdict.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub desc: String,
}
impl Ctx {
    pub fn class(&mut self, name: &'static str) {
        if !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }
    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.class(name)
        }
    }
    pub fn describe(&mut self, s: impl FnOnce() -> String) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(&s());
    }
}

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
}

thread_local! {
    static IN_SUT: RefCell<bool> = const { RefCell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or("?"), l.line()))
            .unwrap_or_default();
        if !IN_SUT.with(|x| *x.borrow()) {
            eprintln!("harness panic: {msg} at {loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run code under test; a panic inside is returned as an error.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|x| *x.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|x| *x.borrow_mut() = false);
    r.map_err(|_| format!("{what} panicked: {}", PANIC.with(|p| p.borrow().clone())))
}

/// Run code under test that may either work or refuse (panic).
pub fn sut_refuses<T>(f: impl FnOnce() -> T) -> Option<T> {
    IN_SUT.with(|x| *x.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|x| *x.borrow_mut() = false);
    r.ok()
}

enum Verdict {
    Pass,
    Fail(String),
    Broken(String),
}

fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| (p.case)(src, ctx))) {
        Ok(Ok(())) => Verdict::Pass,
        Ok(Err(m)) => Verdict::Fail(m),
        Err(_) => {
            IN_SUT.with(|x| *x.borrow_mut() = false);
            Verdict::Broken(PANIC.with(|p| p.borrow().clone()))
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)).wrapping_add(index.wrapping_mul(0xD1342543DE82EF95)))
}

/// CPU seconds a single case may use, normal cases need milliseconds.
const CASE_CPU_LIMIT: f64 = 60.0;

struct Running {
    index: AtomicU64, // index + 1 of the running case, 0: none
    thread: AtomicU64,
}

fn cpu_of(thread: u64) -> Option<f64> {
    unsafe {
        let mut clock: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(thread as libc::pthread_t, &mut clock) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
    }
}

pub struct Options {
    pub tier: String,
    pub seed: u64,
    pub evidence: String,
    pub replay_dir: String,
    pub threads: usize,
    pub cases: Option<u64>,
}

fn write_replay(dir: &str, id: &str, seed: u64, index: Option<u64>, choices: Option<&[u64]>, msg: &str, desc: &str) -> String {
    std::fs::create_dir_all(dir).expect("harness: replay dir");
    let path = format!("{dir}/{id}-{seed}.json");
    let mut s = format!("{{\"property\":{},\"seed\":{seed}", esc(id));
    if let Some(i) = index {
        s.push_str(&format!(",\"case\":{i}"));
    }
    if let Some(c) = choices {
        s.push_str(&format!(",\n \"choices\":{c:?}"));
    }
    s.push_str(&format!(",\n \"failure\":{},\n \"input\":{}}}\n", esc(msg), esc(desc)));
    std::fs::write(&path, s).expect("harness: replay file");
    path
}

/// Shrinking is given up after 25 seconds; a candidate that does not end is left by `stuck`, which
/// gets the best failure so far and ends the process.
fn shrink(p: &Prop, choices: Vec<u64>, msg: String, stuck: impl Fn((Vec<u64>, String, String)) + Sync) -> (Vec<u64>, String, String) {
    let known = std::sync::Mutex::new((choices.clone(), msg.clone(), String::new()));
    let over = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|scope| {
        scope.spawn(|| {
            let start = Instant::now();
            while !over.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                if start.elapsed().as_secs_f64() > 90.0 {
                    stuck(known.lock().unwrap().clone());
                }
            }
        });
        let r = shrink_steps(p, choices, msg, &known);
        over.store(true, Ordering::SeqCst);
        r
    })
}

fn shrink_steps(
    p: &Prop,
    choices: Vec<u64>,
    msg: String,
    known: &std::sync::Mutex<(Vec<u64>, String, String)>,
) -> (Vec<u64>, String, String) {
    let mut best = choices;
    let mut best_msg = msg;
    let mut best_desc = String::new();
    let start = Instant::now();
    let runs = std::cell::Cell::new(0);
    // also checked before a candidate is made, copies of long sequences take their time
    let spent = || runs.get() > 20000 || start.elapsed().as_secs_f64() > 25.0;
    let attempt = |cand: &[u64], best: &mut Vec<u64>, m: &mut String, d: &mut String| -> bool {
        if spent() {
            return false;
        }
        runs.set(runs.get() + 1);
        let mut src = Src::replay(cand.to_vec());
        let mut ctx = Ctx::default();
        if let Verdict::Fail(msg) = run_case(p, &mut src, &mut ctx) {
            let rec = src.rec;
            // smaller: shorter, or same length and lexicographically smaller
            if (rec.len(), &rec) < (best.len(), &*best) || best == &rec && d.is_empty() {
                *best = rec;
                *m = msg;
                *d = ctx.desc;
                *known.lock().unwrap() = (best.clone(), m.clone(), d.clone());
                return true;
            }
        }
        false
    };
    let c = best.clone();
    attempt(&c, &mut best, &mut best_msg, &mut best_desc);
    loop {
        let mut improved = false;
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && !spent() {
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if attempt(&cand, &mut best, &mut best_msg, &mut best_desc) {
                    improved = true;
                    continue;
                }
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    if attempt(&cand, &mut best, &mut best_msg, &mut best_desc) {
                        improved = true;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            // binary search for the smallest value of this choice that still fails
            let mut lo = 0;
            while i < best.len() && lo < best[i] && !spent() {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if attempt(&cand, &mut best, &mut best_msg, &mut best_desc) {
                    improved = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
        if !improved || spent() {
            break;
        }
    }
    (best, best_msg, best_desc)
}

/// Run a property; returns the exit code.
pub fn run(p: &Prop, o: &Options) -> i32 {
    let started = Instant::now();
    let cases = o.cases.unwrap_or(if o.tier == "thorough" { p.thorough } else { p.quick });
    let next = AtomicU64::new(0);
    let best_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<BTreeMap<u64, (Vec<u64>, String)>> = Mutex::new(BTreeMap::new());
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let evals = AtomicU64::new(0);
    let done = AtomicUsize::new(0);
    let finished = AtomicBool::new(false);
    let running: Vec<Running> = (0..o.threads)
        .map(|_| Running { index: AtomicU64::new(0), thread: AtomicU64::new(0) })
        .collect();
    struct Tally {
        seen: HashSet<u64>,
        classes: BTreeMap<&'static str, u64>,
        nontrivial: u64,
        samples: BTreeMap<u64, String>,
    }
    let total: Mutex<Tally> = Mutex::new(Tally {
        seen: HashSet::new(),
        classes: BTreeMap::new(),
        nontrivial: 0,
        samples: BTreeMap::new(),
    });
    std::thread::scope(|scope| {
        for me in &running {
            let (next, best_fail, fails, broken, evals, done, total) =
                (&next, &best_fail, &fails, &broken, &evals, &done, &total);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    me.thread.store(unsafe { libc::pthread_self() } as u64, Ordering::SeqCst);
                    let mut seen = HashSet::new();
                    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut nontrivial = 0;
                    let mut samples = BTreeMap::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases || i > best_fail.load(Ordering::SeqCst) || broken.lock().unwrap().is_some() {
                            break;
                        }
                        me.index.store(i + 1, Ordering::SeqCst);
                        let mut src = Src::random(case_seed(o.seed, p.id, i));
                        let mut ctx = Ctx::default();
                        let v = run_case(p, &mut src, &mut ctx);
                        me.index.store(0, Ordering::SeqCst);
                        evals.fetch_add(1, Ordering::SeqCst);
                        for c in &ctx.classes {
                            *classes.entry(c).or_default() += 1;
                        }
                        if ctx.nontrivial {
                            nontrivial += 1;
                            seen.insert(hash_choices(&src.rec));
                            if i < 400 && samples.len() < 3 {
                                let mut d = ctx.desc.clone();
                                if d.len() > 1500 {
                                    let mut cut = 1500;
                                    while !d.is_char_boundary(cut) {
                                        cut -= 1;
                                    }
                                    d.truncate(cut);
                                    d.push_str(" ...");
                                }
                                samples.insert(i, d);
                            }
                        }
                        match v {
                            Verdict::Pass => {}
                            Verdict::Fail(m) => {
                                fails.lock().unwrap().insert(i, (src.rec, m));
                                best_fail.fetch_min(i, Ordering::SeqCst);
                            }
                            Verdict::Broken(m) => {
                                *broken.lock().unwrap() = Some(format!("case {i}: {m}"));
                            }
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.seen.extend(seen);
                    for (k, n) in classes {
                        *t.classes.entry(k).or_default() += n;
                    }
                    t.nontrivial += nontrivial;
                    t.samples.extend(samples);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("harness: thread");
        }
        // watchdog on the CPU time of single cases
        let (running, done, finished) = (&running, &done, &finished);
        scope.spawn(move || {
            let mut since: Vec<(u64, f64)> = vec![(0, 0.0); running.len()];
            while done.load(Ordering::SeqCst) < running.len() && !finished.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for (t, s) in running.iter().zip(since.iter_mut()) {
                    let i = t.index.load(Ordering::SeqCst);
                    if i == 0 {
                        *s = (0, 0.0);
                        continue;
                    }
                    let Some(cpu) = cpu_of(t.thread.load(Ordering::SeqCst)) else { continue };
                    if s.0 != i {
                        *s = (i, cpu);
                    } else if cpu - s.1 > CASE_CPU_LIMIT {
                        let msg = format!("case {} used more than {CASE_CPU_LIMIT} CPU seconds, such cases take milliseconds: it does not end", i - 1);
                        let path = write_replay(&o.replay_dir, p.id, o.seed, Some(i - 1), None, &msg, "");
                        say!("{msg}");
                        say!("VIOLATION property={} replay={}", p.id, path);
                        use std::io::Write;
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    if let Some(m) = broken.into_inner().unwrap() {
        eprintln!("ERROR: harness panic in {}: {m}", p.id);
        return 2;
    }
    let mut code = 0;
    let fails = fails.into_inner().unwrap();
    let mut lines = Vec::new();
    if let Some((i, (choices, msg))) = fails.into_iter().next() {
        let report = |c: &[u64], m: &str, d: &str| {
            let path = write_replay(&o.replay_dir, p.id, o.seed, Some(i), Some(c), m, d);
            [format!("case {i}: {m}"), format!("input: {d}"), format!("VIOLATION property={} replay={}", p.id, path)]
        };
        let (c, m, d) = shrink(p, choices, msg, |(c, m, d)| {
            for l in report(&c, &m, &d) {
                say!("{l}");
            }
            use std::io::Write;
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        });
        lines.extend(report(&c, &m, &d));
        code = 1;
    }
    let t = total.into_inner().unwrap();
    let mut e = String::from("{\n");
    e.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", esc(p.id), esc(&o.tier), o.seed));
    e.push_str(" \"coverage\": {\n");
    e.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", evals.load(Ordering::SeqCst), t.seen.len()));
    e.push_str(&format!("  \"rule\": {},\n", esc(p.rule)));
    let cl: Vec<String> = t.classes.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
    e.push_str(&format!("  \"classes\": {{{}}},\n", cl.join(", ")));
    let sm: Vec<String> = t.samples.values().take(5).map(|s| esc(s)).collect();
    e.push_str(&format!("  \"samples\": [{}]\n }},\n", sm.join(",\n   ")));
    let asm: Vec<String> = p.assumptions.iter().map(|s| esc(s)).collect();
    e.push_str(&format!(" \"assumptions\": [{}],\n", asm.join(", ")));
    e.push_str(&format!(" \"violations\": {},\n \"wall_s\": {:.3}\n}}\n", code, started.elapsed().as_secs_f64()));
    if let Some(dir) = std::path::Path::new(&o.evidence).parent() {
        std::fs::create_dir_all(dir).expect("harness: evidence dir");
    }
    std::fs::write(&o.evidence, e).expect("harness: evidence");
    say!(
        "{}: {} cases, {} non-trivial and distinct, {:.1}s",
        p.id,
        evals.load(Ordering::SeqCst),
        t.seen.len(),
        started.elapsed().as_secs_f64()
    );
    let cl: Vec<String> = t.classes.iter().map(|(k, n)| format!("{k}={n}")).collect();
    say!("classes: {}", cl.join(" "));
    for l in lines {
        say!("{l}");
    }
    if code == 0 && t.seen.is_empty() {
        eprintln!("ERROR: no non-trivial case for {}", p.id);
        return 2;
    }
    code
}

/// Replay a file written by a failing run.
pub fn replay(p: &Prop, text: &str, seed: u64) -> i32 {
    let nums = |key: &str| -> Option<String> {
        let k = format!("\"{key}\":");
        let i = text.find(&k)? + k.len();
        Some(text[i..].to_string())
    };
    let mut src = if let Some(rest) = nums("choices") {
        let a = rest.find('[').expect("choices") + 1;
        let b = rest.find(']').expect("choices");
        Src::replay(rest[a..b].split(',').filter_map(|x| x.trim().parse().ok()).collect())
    } else {
        let int = |key: &str, default: u64| {
            nums(key)
                .and_then(|r| r.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok())
                .unwrap_or(default)
        };
        Src::random(case_seed(int("seed", seed), p.id, int("case", 0)))
    };
    let mut ctx = Ctx::default();
    let v = run_case(p, &mut src, &mut ctx);
    say!("input: {}", ctx.desc);
    match v {
        Verdict::Pass => {
            say!("{} holds on this input", p.id);
            0
        }
        Verdict::Fail(m) => {
            say!("{m}");
            1
        }
        Verdict::Broken(m) => {
            eprintln!("ERROR: {m}");
            2
        }
    }
}

fn usage() -> ! {
    eprintln!("usage: list | check ID quick|thorough SEED EVIDENCE REPLAY_DIR [CASES] | replay FILE");
    std::process::exit(2)
}

/// The command line of a harness.
pub fn cli(all: fn() -> Vec<Prop>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let find = |id: &str| -> Prop {
        match all().into_iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            }
        }
    };
    let code = match args.as_slice() {
        ["list"] => {
            for p in all() {
                say!("{}", p.id);
            }
            0
        }
        ["check", id, tier, seed, evidence, replays, rest @ ..] => {
            let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
            let o = Options {
                tier: tier.to_string(),
                seed: seed.parse().unwrap_or_else(|_| usage()),
                evidence: evidence.to_string(),
                replay_dir: replays.to_string(),
                threads,
                cases: rest.first().map(|x| x.parse().unwrap_or_else(|_| usage())),
            };
            run(&find(id), &o)
        }
        ["replay", file] => {
            let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
                eprintln!("{file}: {e}");
                std::process::exit(2)
            });
            let k = "\"property\":\"";
            let i = text.find(k).unwrap_or_else(|| usage()) + k.len();
            let id = &text[i..i + text[i..].find('"').unwrap_or_else(|| usage())];
            replay(&find(id), &text, 1)
        }
        _ => usage(),
    };
    std::process::exit(code)
}
