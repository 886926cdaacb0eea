//! Runs checks: cases in parallel in a child process, so that a crash of the code under test is an
//! observation and not the end of the check; three-valued verdicts; evidence.
use crate::cmp::{Diff, Facet};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    pub id: &'static str,
    pub seed: u64,
    pub tier: Tier,
    /// Scratch directory of this run, for cases that need files.
    pub scratch: PathBuf,
}

/// One execution and what was observed.
pub struct Case {
    /// The input, written out.
    pub input: String,
    pub diffs: Vec<Diff>,
    /// Hash of the behaviour exercised, if the case was non-trivial for the property.
    pub nontrivial: Option<u64>,
    /// Further observations: counters.
    pub stats: Vec<(String, u64)>,
}

impl Case {
    pub fn new(input: String) -> Case {
        Case {
            input,
            diffs: vec![],
            nontrivial: None,
            stats: vec![],
        }
    }
    pub fn stat(&mut self, k: impl Into<String>, n: usize) {
        if n > 0 {
            self.stats.push((k.into(), n as u64))
        }
    }
}

pub type CaseFn = fn(&Env, u64) -> Case;

pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub streams: Vec<Stream>,
    /// Counters that must be positive for the run to count as an observation.
    pub need: &'static [&'static str],
}

// ---- the code under test, and what happens inside it

thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    static PANIC: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
}

/// Runs the code under test: a panic in here is an observation.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            IN_SUT.with(|c| c.set(c.get() - 1))
        }
    }
    IN_SUT.with(|c| c.set(c.get() + 1));
    let _l = Leave;
    f()
}

/// Runs the code under test, turning a panic into its message.
pub fn sut_catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(|| sut(f))) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .map_or("panic".into(), |p| p.1)),
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let inside = IN_SUT.with(|c| c.get() > 0);
        let text = format!("{info}");
        PANIC.with(|p| *p.borrow_mut() = Some((inside, text)));
    }));
}

pub fn run_case(env: &Env, s: &Stream, i: u64) -> Result<Case, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| (s.f)(env, i))) {
        Ok(c) => Ok(c),
        Err(_) => {
            let (inside, text) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or((false, "panic".into()));
            if inside {
                let mut c = Case::new(INPUT.with(|x| x.borrow().clone()));
                c.diffs.push(crate::cmp::diff(
                    Facet::Crash,
                    format!("panicked: {}", text.replace('\n', " ")),
                ));
                Ok(c)
            } else {
                Err(format!("harness panicked: {text}"))
            }
        }
    }
}

thread_local! {
    static INPUT: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Notes the input about to be tried, for reports of panics.
pub fn note_input(s: &str) {
    INPUT.with(|x| {
        let mut x = x.borrow_mut();
        x.clear();
        x.push_str(s);
    })
}

// ---- child

const CPU_LIMIT: u64 = 60;

#[derive(Default)]
struct Total {
    evals: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    stats: BTreeMap<String, u64>,
    samples: Vec<String>,
    bad: Vec<(usize, u64, Case)>,
    errors: Vec<String>,
}

impl Total {
    fn add(&mut self, o: Total) {
        for (k, v) in o.evals {
            *self.evals.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        for (k, v) in o.stats {
            *self.stats.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.bad.extend(o.bad);
        self.errors.extend(o.errors);
    }
}

fn thread_cpu() -> u64 {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    // SAFETY: plain call with a valid pointer
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn clock_of(thread: libc::pthread_t) -> u64 {
    let mut c = 0;
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    // SAFETY: the threads end only after the watchdog has
    unsafe {
        if libc::pthread_getcpuclockid(thread, &mut c) != 0 || libc::clock_gettime(c, &mut t) != 0 {
            return 0;
        }
    }
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

/// Whether this is a build with a sanitizer: memory is mapped in other ways, stacks are larger.
pub fn sanitized() -> bool {
    std::env::var_os("VMON_SAN").is_some()
}
pub fn stack() -> usize {
    if sanitized() {
        64 << 20
    } else {
        8 << 20
    }
}

pub fn limits(mem_gb: u64, cpu: Option<u64>) {
    // SAFETY: plain calls
    unsafe {
        let r = libc::rlimit {
            rlim_cur: mem_gb << 30,
            rlim_max: mem_gb << 30,
        };
        if !sanitized() {
            libc::setrlimit(libc::RLIMIT_AS, &r);
        }
        let z = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        if let Some(c) = cpu {
            let r = libc::rlimit {
                rlim_cur: c,
                rlim_max: c + 5,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
        }
    }
}

/// A run of the plain build (nothing checked at run time) does this part of the work.
fn part() -> Option<u64> {
    std::env::var("VMON_PART").ok()?.parse().ok()
}

fn jobs(check: &Check, tier: Tier) -> Vec<(usize, u64, u64)> {
    // chunks of each stream, interleaved in proportion
    let mut v: Vec<(f64, usize, u64, u64)> = vec![];
    for (si, s) in check.streams.iter().enumerate() {
        let n = if tier == Tier::Quick { s.quick } else { s.thorough }.div_ceil(part().unwrap_or(1));
        let chunk = (n / 400).clamp(1, 256);
        let mut i = 0;
        while i < n {
            let e = (i + chunk).min(n);
            v.push(((i as f64 + 0.5) / n as f64, si, i, e));
            i = e;
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.into_iter().map(|x| (x.1, x.2, x.3)).collect()
}

pub fn work(check: &Check, env: &Env, dir: &Path, cap: Duration) {
    install_hook();
    limits(24, None);
    let inflight = fs::File::create(dir.join("inflight")).unwrap();
    let jobs = jobs(check, env.tier);
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Total::default());
    let start = Instant::now();
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let n = if check.id == "C15" { n.min(4) } else { n };
    let cur: Vec<(AtomicU64, AtomicU64, AtomicU64)> = (0..n)
        .map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)))
        .collect(); // (thread, job serial, cpu at start)
    let truncated = AtomicBool::new(false);
    // the threads live until the watchdog no longer asks for their clocks
    let over = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for t in 0..n {
            let (next, stop, total, jobs, inflight, cur, done, truncated, over) =
                (&next, &stop, &total, &jobs, &inflight, &cur, &done, &truncated, &over);
            std::thread::Builder::new()
                .stack_size(stack())
                .spawn_scoped(sc, move || {
                    cur[t].0.store(unsafe { libc::pthread_self() } as u64, SeqCst);
                    let mut mine = Total::default();
                    'outer: loop {
                        let j = next.fetch_add(1, SeqCst);
                        if j >= jobs.len() {
                            break;
                        }
                        let (si, a, b) = jobs[j];
                        let s = &check.streams[si];
                        for i in a..b {
                            if stop.load(Relaxed) {
                                break 'outer;
                            }
                            if start.elapsed() > cap {
                                truncated.store(true, SeqCst);
                                break 'outer;
                            }
                            let mut rec = [0u8; 16];
                            rec[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                            rec[8..].copy_from_slice(&i.to_le_bytes());
                            let _ = inflight.write_at(&rec, t as u64 * 16);
                            cur[t].2.store(thread_cpu(), SeqCst);
                            cur[t].1.fetch_add(1, SeqCst);
                            match run_case(env, s, i) {
                                Err(e) => {
                                    mine.errors.push(format!("{} {i}: {e}", s.name));
                                    // a violation in another case would tell more
                                    if mine.errors.len() >= 10 {
                                        stop.store(true, SeqCst);
                                    }
                                }
                                Ok(c) => {
                                    *mine.evals.entry(s.name).or_default() += 1;
                                    for (k, v) in &c.stats {
                                        *mine.stats.entry(k.clone()).or_default() += v;
                                    }
                                    if let Some(h) = c.nontrivial {
                                        if mine.distinct.insert(h)
                                            && c.input.len() < 1500
                                            && mine.samples.len() < 2
                                        {
                                            mine.samples.push(format!("[{}] {}", s.name, c.input));
                                        }
                                    }
                                    if !c.diffs.is_empty() {
                                        mine.bad.push((si, i, c));
                                        if mine.bad.len() >= 3 {
                                            stop.store(true, SeqCst);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    let _ = inflight.write_at(&[0u8; 16], t as u64 * 16);
                    total.lock().unwrap().add(mine);
                    done.fetch_add(1, SeqCst);
                    // stay until the watchdog has seen everyone finish
                    while !over.load(SeqCst) {
                        std::thread::sleep(Duration::from_millis(2));
                    }
                })
                .unwrap();
        }
        // watchdog
        let mut seen = vec![0u64; n];
        while done.load(SeqCst) < n {
            std::thread::sleep(Duration::from_millis(20));
            for t in 0..n {
                let (th, serial, at) = (
                    cur[t].0.load(SeqCst),
                    cur[t].1.load(SeqCst),
                    cur[t].2.load(SeqCst),
                );
                if th == 0 || serial == 0 {
                    continue;
                }
                if seen[t] == serial {
                    let used = clock_of(th as libc::pthread_t).saturating_sub(at);
                    if used > CPU_LIMIT * 1000 && done.load(SeqCst) < n {
                        fs::write(dir.join("hang"), t.to_string()).unwrap();
                        std::process::exit(3);
                    }
                }
                seen[t] = serial;
            }
        }
        over.store(true, SeqCst);
    });
    let mut t = total.into_inner().unwrap();
    t.samples.sort();
    let mut out = String::new();
    for e in &t.errors {
        out += &format!("E\t{}\n", esc(e));
    }
    for (k, v) in &t.evals {
        out += &format!("N\t{k}\t{v}\n");
    }
    for (k, v) in &t.stats {
        out += &format!("S\t{}\t{v}\n", esc(k));
    }
    out += &format!("D\t{}\n", t.distinct.len());
    for s in t.samples.iter().take(5) {
        out += &format!("X\t{}\n", esc(s));
    }
    t.bad.sort_by_key(|b| (b.2.input.len(), b.0, b.1));
    for (si, i, c) in t.bad.iter().take(10) {
        for d in c.diffs.iter().take(5) {
            out += &format!("V\t{si}\t{i}\t{:?}\t{}\t{}\n", d.facet, esc(&d.what), esc(&c.input));
        }
    }
    if truncated.load(SeqCst) {
        out += "T\n";
    }
    fs::write(dir.join("result"), out).unwrap();
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Viol {
    stream: String,
    index: u64,
    what: String,
    input: String,
}

/// Parent: returns the exit code.
pub fn check(check: &Check, tier: Tier, seed: u64, verif: &Path, cap: Duration) -> i32 {
    let start = Instant::now();
    let dir = scratch_base().join(format!("vmon-{}-{}", check.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(dir.join("scratch")).unwrap();
    let code = check_in(check, tier, seed, verif, cap, &dir, start);
    let _ = fs::remove_dir_all(&dir);
    code
}

/// In memory if possible: the disk of a sandbox can be slow.
pub fn scratch_base() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let probe = shm.join(format!("vmon-probe-{}", std::process::id()));
    if fs::create_dir(&probe).is_ok() {
        let _ = fs::remove_dir(&probe);
        shm
    } else {
        std::env::temp_dir()
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn check_in(
    check: &Check,
    tier: Tier,
    seed: u64,
    verif: &Path,
    cap: Duration,
    dir: &Path,
    start: Instant,
) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(&exe)
        .args(["work", check.id, tier_name(tier), &seed.to_string()])
        .arg(dir)
        .arg(cap.as_secs().to_string())
        .spawn()
        .unwrap();
    // Generous: everything in the child is bounded by the cap and the CPU limit
    let deadline = Instant::now() + cap + Duration::from_secs(CPU_LIMIT * 4 + 60);
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if Instant::now() > deadline {
            let _ = child.kill();
            let _ = child.wait();
            eprintln!("inconclusive: the run did not end in time");
            return 2;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let mut viols: Vec<Viol> = vec![];
    let mut errors: Vec<String> = vec![];
    let (mut evals, mut distinct, mut truncated) = (BTreeMap::new(), 0u64, false);
    let (mut stats, mut samples) = (BTreeMap::new(), vec![]);
    if status.success() {
        let r = fs::read_to_string(dir.join("result")).unwrap();
        for l in r.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "E" => errors.push(unesc(f[1])),
                "N" => {
                    evals.insert(f[1].to_owned(), f[2].parse::<u64>().unwrap());
                }
                "S" => {
                    stats.insert(unesc(f[1]), f[2].parse::<u64>().unwrap());
                }
                "D" => distinct = f[1].parse().unwrap(),
                "X" => samples.push(unesc(f[1])),
                "V" => viols.push(Viol {
                    stream: check.streams[f[1].parse::<usize>().unwrap()].name.to_owned(),
                    index: f[2].parse().unwrap(),
                    what: format!("{}: {}", f[3], unesc(f[4])),
                    input: unesc(f[5]),
                }),
                "T" => truncated = true,
                _ => (),
            }
        }
    } else {
        // Which of the cases in flight did it?
        let fl = fs::read(dir.join("inflight")).unwrap_or_default();
        let cases: Vec<(u64, u64)> = fl
            .chunks(16)
            .filter(|c| c.len() == 16)
            .map(|c| {
                (
                    u64::from_le_bytes(c[..8].try_into().unwrap()),
                    u64::from_le_bytes(c[8..].try_into().unwrap()),
                )
            })
            .filter(|c| c.0 > 0)
            .collect();
        for (si, i) in cases {
            let s = &check.streams[si as usize - 1];
            let out = Command::new(&exe)
                .args(["case", check.id, tier_name(tier), &seed.to_string(), s.name])
                .arg(i.to_string())
                .arg(dir)
                .output()
                .unwrap();
            if let Some(sig) = out.status.signal() {
                let input = fs::read_to_string(dir.join("input")).unwrap_or_default();
                viols.push(Viol {
                    stream: s.name.to_owned(),
                    index: i,
                    what: format!(
                        "Crash: the process was killed by signal {sig}{}",
                        match sig {
                            libc::SIGXCPU | libc::SIGKILL => " (out of processor time)",
                            libc::SIGSEGV => " (stack overflow or invalid access)",
                            libc::SIGABRT => " (abort: stack overflow or out of memory)",
                            _ => "",
                        }
                    ),
                    input,
                });
            }
        }
        if viols.is_empty() && sanitized() {
            viols.push(Viol {
                stream: "all".into(),
                index: 0,
                what: format!("Crash: a run with {} ended with {status}", std::env::var("VMON_SAN").unwrap_or_default()),
                input: String::new(),
            });
        }
        if viols.is_empty() {
            errors.push(format!("the run ended with {status}, and no case reproduces it"));
        }
    }
    for (k, v) in std::env::vars() {
        if let (Some(k), Ok(n)) = (k.strip_prefix("VMON_OBSERVED_"), v.parse()) {
            stats.insert(format!("executions under {k}"), n);
        }
    }
    let known = known_findings(verif, check.id);
    let mut reported_known = HashSet::new();
    viols.retain(|v| {
        for (sig, what) in &known {
            if v.what.contains(sig.as_str()) {
                if reported_known.insert(sig.clone()) && part().is_none() {
                    println!("KNOWN-FINDING: property={} {what}", check.id);
                }
                return false;
            }
        }
        true
    });
    let n: u64 = evals.values().sum();
    let ev = verif.join("evidence");
    let _ = fs::create_dir_all(&ev);
    if samples.is_empty() {
        samples.push(format!("no non-trivial case: {:?}", errors));
    }
    let streams = evals
        .iter()
        .map(|(k, v)| format!("{}: {v}", json(k)))
        .collect::<Vec<_>>()
        .join(", ");
    let observed = stats
        .iter()
        .map(|(k, v)| format!("{}: {v}", json(k)))
        .collect::<Vec<_>>()
        .join(", ");
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {n},\n    \"distinct_nontrivial\": {distinct},\n    \"rule\": {},\n    \"streams\": {{{streams}}},\n    \"observed\": {{{observed}}},\n    \"stopped_early\": {truncated},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.1},\n  \"violations\": {}\n}}\n",
        json(check.id),
        tier_name(tier),
        json(check.rule),
        samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        check.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        viols.len()
    );
    fs::write(ev.join(format!("{}.json", check.id)), text).unwrap();
    eprintln!(
        "{} {}: {n} executions, {distinct} distinct non-trivial, {} violations, {:.1} s",
        check.id,
        tier_name(tier),
        viols.len(),
        start.elapsed().as_secs_f64()
    );
    if let Some(v) = viols.first() {
        let path = ev.join(format!("{}.replay", check.id));
        let body = format!(
            "property {}\nreplay: {} case {} {} {seed} {} {}\n{}\n{}---- input\n{}",
            check.id,
            exe.display(),
            check.id,
            tier_name(tier),
            v.stream,
            v.index,
            v.what,
            viols
                .iter()
                .skip(1)
                .filter(|w| w.stream == v.stream && w.index == v.index)
                .map(|w| format!("also: {}\n", w.what))
                .collect::<String>(),
            v.input
        );
        fs::write(&path, &body).unwrap();
        println!("{}", body.chars().take(3000).collect::<String>());
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        eprintln!("inconclusive: {}", errors.join("; "));
        return 2;
    }
    for k in check.need {
        if stats.get(*k).copied().unwrap_or(0) == 0 && part().is_none() {
            eprintln!("inconclusive: nothing observed for {k:?}");
            return 2;
        }
    }
    if n == 0 || distinct == 0 {
        eprintln!("inconclusive: nothing observed");
        return 2;
    }
    0
}

fn known_findings(verif: &Path, id: &str) -> Vec<(String, String)> {
    let t = fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("open: "))
        .filter_map(|l| l.strip_prefix(&format!("property={id} ")))
        .filter_map(|l| {
            let l = l.strip_prefix("sig={")?;
            let (sig, what) = l.split_once("} ")?;
            Some((sig.to_owned(), what.to_owned()))
        })
        .collect()
}

/// One case alone, for replays; writes the input first.
pub fn case(check: &Check, env: &Env, stream: &str, i: u64, dir: &Path) -> i32 {
    install_hook();
    limits(8, Some(CPU_LIMIT + 20));
    let s = check.streams.iter().find(|s| s.name == stream).expect("stream");
    INPUT_FILE.with(|f| *f.borrow_mut() = Some(dir.join("input")));
    let h = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(stack())
            .spawn_scoped(sc, || {
                INPUT_FILE.with(|f| *f.borrow_mut() = Some(dir.join("input")));
                run_case(env, s, i)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match h {
        Err(e) => {
            println!("{e}");
            2
        }
        Ok(c) => {
            for d in &c.diffs {
                println!("{:?}: {}", d.facet, d.what);
            }
            println!("---- input\n{}", c.input);
            (!c.diffs.is_empty()) as i32
        }
    }
}

thread_local! {
    static INPUT_FILE: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

/// As `note_input`, and to disk when a single case is replayed.
pub fn about_to_try(s: &str) {
    note_input(s);
    INPUT_FILE.with(|f| {
        if let Some(p) = &*f.borrow() {
            let _ = fs::write(p, s);
        }
    });
}
