//! The same input gives the same result (C14): again, later, on other threads, in other processes.
use crate::checks_compile::{compile_mem, same_output, Mem, Scratch};
use crate::checks_parse::{self as cp, rng};
use crate::cmp::{diff, Facet};
use crate::drive::*;
use crate::gen;
use crate::lex;
use crate::prog::{self, Program};
use crate::rng::{fnv, Rng};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::{Compiler, Error};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::Duration;

/// One piece of work.
pub enum Work {
    Parse(String, String),
    Compile(Program),
    /// From the descriptors, which every thread gets from the one resolver.
    FromSet(Program, Arc<DescriptorSetFileResolver>),
    /// From files of this directory.
    FromDisk(Program, PathBuf),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Text(String),
    Bytes(Vec<u8>),
}

struct Shared(Arc<DescriptorSetFileResolver>);
impl FileResolver for Shared {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        self.0.open_file(name)
    }
}

/// Waits a little before it passes on what it is asked.
struct Slow<R>(R, u64);
impl<R: FileResolver> FileResolver for Slow<R> {
    fn resolve_path(&self, path: &Path) -> Option<String> {
        self.0.resolve_path(path)
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match fnv(name.as_bytes()).wrapping_add(self.1) % 5 {
            0 => std::thread::yield_now(),
            1 => std::thread::sleep(Duration::from_micros(self.1 % 300)),
            _ => (),
        }
        self.0.open_file(name)
    }
}

fn rendering(e: &dyn miette::Diagnostic) -> String {
    let mut s = String::new();
    let h = miette::GraphicalReportHandler::new_themed(miette::GraphicalTheme::unicode_nocolor()).with_width(100);
    if h.render_report(&mut s, e).is_err() {
        s += "(no rendering)";
    }
    s
}

fn compiled(mut k: Compiler, roots: &[PathBuf]) -> Out {
    k.include_imports(true).include_source_info(true);
    for r in roots {
        if let Err(e) = k.open_file(r) {
            let files: Vec<(String, bool)> = k.files().map(|f| (f.name().to_owned(), f.is_import())).collect();
            return Out::Text(format!("{e}\n{e:?}\n{:?}\n{}\n{files:?}", e.file(), rendering(&e)));
        }
    }
    Out::Bytes(k.encode_file_descriptor_set())
}

pub fn outcome(w: &Work, delay: u64) -> Out {
    let roots = |p: &Program| p.roots.iter().map(PathBuf::from).collect::<Vec<_>>();
    sut(|| match w {
        Work::Parse(n, t) => Out::Text(match protox_parse::parse(n, t) {
            Ok(f) => format!("{f:?}"),
            Err(e) => format!("{e}\n{e:?}\n{}\n{}", e.file(), rendering(&e)),
        }),
        Work::Compile(p) => compiled(Compiler::with_file_resolver(Slow(Mem::of(p).chain(), delay)), &roots(p)),
        Work::FromSet(p, s) => {
            let mut c = ChainFileResolver::new();
            c.add(Slow(Shared(s.clone()), delay));
            c.add(GoogleFileResolver::new());
            compiled(Compiler::with_file_resolver(c), &roots(p))
        }
        Work::FromDisk(p, d) => match Compiler::new([d]) {
            Ok(k) => compiled(k, &p.roots.iter().map(|r| d.join(r)).collect::<Vec<_>>()),
            Err(e) => Out::Text(format!("{e:?}")),
        },
    })
}

fn text_of(w: &Work) -> String {
    match w {
        Work::Parse(n, t) => format!("parse {n:?}\n{t}"),
        Work::Compile(p) => format!("compile\n{}", p.show()),
        Work::FromSet(p, _) => format!("compile from descriptors\n{}", p.show()),
        Work::FromDisk(p, _) => format!("compile from files\n{}", p.show()),
    }
}

fn same(w: &Work, a: &Out, b: &Out) -> Result<(), String> {
    match (a, b) {
        (Out::Bytes(x), Out::Bytes(y)) => match w {
            Work::Parse(..) => Err("?".into()),
            _ => same_output(&text_of(w), x, y),
        },
        (Out::Text(x), Out::Text(y)) if x == y => Ok(()),
        (Out::Text(x), Out::Text(y)) => {
            let at = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count();
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60)..(at + 60).min(s.len())]).into_owned();
            Err(format!("...{:?} against ...{:?}", cut(x), cut(y)))
        }
        (Out::Text(x), _) | (_, Out::Text(x)) => Err(format!("once a success, once the error {:?}", x.lines().next())),
    }
}

/// Changes some tokens of a text.
pub fn mutate_tokens(r: &mut Rng, text: &str, others: &[(String, String)]) -> String {
    let spans = |t: &str| -> Vec<(usize, usize)> {
        let l = lex::lex(t);
        let ok = |x: &(usize, usize)| t.is_char_boundary(x.0) && t.is_char_boundary(x.1);
        l.toks.iter().map(|k| (k.s, k.e)).filter(ok).collect()
    };
    let s = spans(text);
    if s.is_empty() {
        return text.to_owned();
    }
    let mut out = String::new();
    let mut from = 0;
    let mut ats: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(s.len())).collect();
    ats.sort_unstable();
    ats.dedup();
    for at in ats {
        let (a, b) = s[at];
        out += &text[from..a];
        from = b;
        let tok = &text[a..b];
        match r.below(8) {
            0 => (),
            1 => {
                out += tok;
                out.push(' ');
                out += tok;
            }
            2 | 3 => {
                // another token of the same text, of the same kind if there is one nearby
                let kind = |t: &str| t.chars().next().map_or(0, |c| if c.is_alphabetic() { 1 } else if c.is_numeric() { 2 } else { 3 });
                let mut k = r.below(s.len());
                for _ in 0..10 {
                    if kind(&text[s[k].0..s[k].1]) == kind(tok) {
                        break;
                    }
                    k = r.below(s.len());
                }
                out += &text[s[k].0..s[k].1];
            }
            4 => {
                let (_, t) = &others[r.below(others.len())];
                let s = spans(t);
                if !s.is_empty() {
                    let (a, b) = s[r.below(s.len())];
                    out += &t[a..b];
                }
            }
            5 => {
                // a stretch of another file
                let (_, t) = &others[r.below(others.len())];
                let s = spans(t);
                out += tok;
                if !s.is_empty() {
                    let i = r.below(s.len());
                    let j = (i + r.range(1, 12)).min(s.len() - 1);
                    out.push(' ');
                    out += &t[s[i].0..s[j].1];
                }
            }
            _ => out += r.pick(cp::ALPHABET),
        }
        out.push(' ');
    }
    out += &text[from..];
    out
}

/// A program, two times out of three with some tokens changed.
pub fn broken_program(r: &mut Rng, max: usize) -> Program {
    let mut p = prog::program(r, max);
    if !r.one_in(3) {
        let k = r.below(p.files.len());
        p.files[k].1 = mutate_tokens(r, &p.files[k].1, &p.files);
    }
    p
}

fn pieces_of_work(env: &Env, stream: &str, i: u64, n: usize, dir: Option<&Scratch>) -> Vec<Work> {
    (0..n as u64)
        .map(|k| {
            let i = i * 64 + k;
            let mut r = rng(env, stream, i);
            match r.below(8) {
                0 | 1 => Work::Parse("f.proto".into(), gen::make(&mut r, &cp::cfg_errors())),
                2 => Work::Parse("d/\u{e9}.proto".into(), gen::make(&mut r, &cp::cfg_spans())),
                3 => Work::Parse("c.proto".into(), cp::corpus_mutant(env, stream, i, &cp::cfg_errors())),
                4 | 5 => Work::Compile(broken_program(&mut r, 4)),
                6 => {
                    let p = if r.one_in(20) { prog::large(&mut r) } else { prog::program(&mut r, 3) };
                    // making descriptors would be a first use before the threads start
                    if stream == "processes" && i / 64 % 2 == 0 {
                        return Work::Compile(p);
                    }
                    let set = sut(|| {
                        let b = compile_mem(&p, true, true).ok()?.encode_file_descriptor_set();
                        DescriptorSetFileResolver::decode(b.as_slice()).ok()
                    });
                    match set {
                        Some(s) => Work::FromSet(p, Arc::new(s)),
                        None => Work::Compile(p),
                    }
                }
                _ => {
                    let p = broken_program(&mut r, 3);
                    match dir {
                        None => Work::Compile(p),
                        Some(d) => {
                            for (n, t) in &p.files {
                                d.write(&format!("{k}/{n}"), t);
                            }
                            Work::FromDisk(p, d.0.join(k.to_string()))
                        }
                    }
                }
            }
        })
        .collect()
}

fn shuffled(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for x in (1..n).rev() {
        let y = r.below(x + 1);
        v.swap(x, y);
    }
    v
}

fn note(c: &mut Case, w: &Work, o: &Out) {
    let k = match (w, o) {
        (Work::Parse(..), Out::Text(t)) if t.starts_with("FileDescriptorProto") => "parsed",
        (Work::Parse(..), _) => "not parsed",
        (_, Out::Bytes(_)) => "compiled",
        _ => "not compiled",
    };
    c.stat(k, 1);
}

/// Again and again on one thread, in other orders.
pub fn again(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "again order", i);
    let dir = Scratch::new(env, "again", i);
    let work = pieces_of_work(env, "again", i, 6, Some(&dir));
    let mut c = Case::new(work.iter().map(text_of).collect::<Vec<_>>().join("\n######## "));
    about_to_try(&c.input);
    let first: Vec<Out> = work.iter().map(|w| outcome(w, 0)).collect();
    for (w, o) in work.iter().zip(&first) {
        note(&mut c, w, o);
    }
    for round in 0..3 {
        for k in shuffled(&mut r, work.len()) {
            c.stat("repetitions compared", 1);
            if let Err(e) = same(&work[k], &first[k], &outcome(&work[k], 0)) {
                c.diffs.push(diff(Facet::Meta, format!("work {k}, round {round}: {e}")));
            }
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

/// On several threads at once.
pub fn threads(env: &Env, i: u64) -> Case {
    let dir = Scratch::new(env, "threads", i);
    let work = pieces_of_work(env, "threads", i, 6, Some(&dir));
    let mut c = Case::new(work.iter().map(text_of).collect::<Vec<_>>().join("\n######## "));
    about_to_try(&c.input);
    let first: Vec<Out> = work.iter().map(|w| outcome(w, 0)).collect();
    for (w, o) in work.iter().zip(&first) {
        note(&mut c, w, o);
    }
    let (outs, switches) = at_once(env, i, &work, 4);
    c.stat("context switches while racing", switches as usize);
    for (t, v) in outs.into_iter().enumerate() {
        for (k, o) in v {
            c.stat("results of threads compared", 1);
            if let Err(e) = o.and_then(|o| same(&work[k], &first[k], &o)) {
                c.diffs.push(diff(Facet::Meta, format!("work {k} on thread {t}: {e}")));
            }
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

type Outs = Vec<Vec<(usize, Result<Out, String>)>>;

fn at_once(env: &Env, i: u64, work: &[Work], n: usize) -> (Outs, u64) {
    let start = Barrier::new(n);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let start = &start;
                std::thread::Builder::new()
                    .stack_size(crate::drive::stack())
                    .spawn_scoped(sc, move || {
                        let mut r = rng(env, "order", i * 64 + t as u64);
                        let order: Vec<usize> = (0..2).flat_map(|_| shuffled(&mut r, work.len())).collect();
                        start.wait();
                        let v = order
                            .into_iter()
                            .map(|k| {
                                if r.one_in(4) {
                                    std::thread::yield_now();
                                }
                                let d = r.next();
                                (k, sut_catch(|| outcome(&work[k], d)).map_err(|e| format!("panicked: {e}")))
                            })
                            .collect::<Vec<_>>();
                        // SAFETY: plain call with a valid pointer
                        let sw = unsafe {
                            let mut u: libc::rusage = std::mem::zeroed();
                            libc::getrusage(libc::RUSAGE_THREAD, &mut u);
                            (u.ru_nvcsw + u.ru_nivcsw) as u64
                        };
                        (v, sw)
                    })
                    .unwrap()
            })
            .collect();
        let mut outs = vec![];
        let mut sw = 0;
        for h in hs {
            let (v, s) = h.join().unwrap();
            outs.push(v);
            sw += s;
        }
        (outs, sw)
    })
}

/// In another process, whose threads all start on the work at once, with another environment.
pub fn processes(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "process", i);
    let dir = Scratch::new(env, "processes", i);
    let work = pieces_of_work(env, "processes", i, 6, Some(&dir));
    let mut c = Case::new(work.iter().map(text_of).collect::<Vec<_>>().join("\n######## "));
    about_to_try(&c.input);
    let out = dir.0.join("outcomes");
    let cwd = *r.pick(&["/", "/usr", "/proc"]);
    let mut exe = std::env::current_exe().unwrap();
    if r.one_in(2) {
        // built in the other way: with or without debug assertions and overflow checks
        let here = exe.parent().unwrap();
        let other = if here.ends_with("plain") { "release" } else { "plain" };
        let other = here.with_file_name(other).join("vmon");
        if other.exists() {
            exe = other;
            c.stat("processes of the other build", 1);
        }
    }
    let mut cmd = Command::new(exe);
    cmd.args(["outcomes", &env.seed.to_string(), &i.to_string()])
        .arg(&out)
        .arg(&dir.0)
        .arg(r.range(1, 6).to_string())
        .current_dir(cwd)
        .stdin(Stdio::null());
    for (k, vs) in [
        ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"][..]),
        ("LC_ALL", &["C", "tr_TR.UTF-8"]),
        ("TZ", &["UTC", "Asia/Tokyo"]),
        ("HOME", &["/", "/nonexistent"]),
        ("COLUMNS", &["40", "300"]),
        ("RUST_BACKTRACE", &["0", "full"]),
        ("RUST_LOG", &["trace", "off"]),
        ("PROTOC_INCLUDE", &["/nonexistent"]),
        ("PROTOX_INCLUDE", &["/nonexistent"]),
        ("SOURCE_DATE_EPOCH", &["0", "1700000000"]),
    ] {
        if r.one_in(2) {
            cmd.env(k, r.pick(vs));
        } else {
            cmd.env_remove(k);
        }
    }
    let o = cmd.output().expect("a process");
    if !o.status.success() {
        c.diffs.push(diff(
            Facet::Meta,
            format!("the other process ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)),
        ));
        return c;
    }
    let theirs = read_outcomes(&fs::read(&out).unwrap());
    c.stat("processes", 1);
    let first: Vec<Out> = work.iter().map(|w| outcome(w, 0)).collect();
    for (w, o) in work.iter().zip(&first) {
        note(&mut c, w, o);
    }
    for (t, k, o) in theirs {
        c.stat("results of processes compared", 1);
        if let Err(e) = same(&work[k], &first[k], &o) {
            c.diffs.push(diff(Facet::Meta, format!("work {k} in another process, thread {t}: {e}")));
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

fn read_outcomes(mut b: &[u8]) -> Vec<(usize, usize, Out)> {
    let mut v = vec![];
    while b.len() >= 25 {
        let n = |k: usize| u64::from_le_bytes(b[k..k + 8].try_into().unwrap()) as usize;
        let (t, k, len, kind) = (n(0), n(8), n(16), b[24]);
        let x = b[25..25 + len].to_vec();
        b = &b[25 + len..];
        v.push((t, k, if kind == 1 { Out::Bytes(x) } else { Out::Text(String::from_utf8(x).unwrap()) }));
    }
    v
}

/// The other process: `outcomes <seed> <i> <out> <directory> <threads>`.
pub fn outcomes(a: &[String]) {
    let env = Env {
        id: "C14",
        seed: a[0].parse().unwrap(),
        tier: Tier::Quick,
        scratch: PathBuf::from(&a[3]),
    };
    let i: u64 = a[1].parse().unwrap();
    let n: usize = a[4].parse().unwrap();
    // nothing of the code under test has run yet, unless descriptors have to be made
    let dir = Scratch(PathBuf::from(&a[3]));
    let work = pieces_of_work(&env, "processes", i, 6, Some(&dir));
    std::mem::forget(dir);
    let (outs, _) = at_once(&env, i, &work, n);
    let mut b = vec![];
    for (t, v) in outs.into_iter().enumerate() {
        for (k, o) in v {
            let o = match o {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(1)
                }
            };
            let (kind, x) = match o {
                Out::Bytes(x) => (1, x),
                Out::Text(x) => (0, x.into_bytes()),
            };
            b.extend((t as u64).to_le_bytes());
            b.extend((k as u64).to_le_bytes());
            b.extend((x.len() as u64).to_le_bytes());
            b.push(kind);
            b.extend(x);
        }
    }
    fs::write(&a[2], b).unwrap();
}

/// Inputs whose result was once seen to differ from run to run.
pub const FIXED: &[(&str, &str)] = &[(
    "entries of a map in a custom option",
    "syntax = \"proto3\"; import \"google/protobuf/descriptor.proto\"; message M { map<string, int32> m = 1; } \
     extend google.protobuf.FileOptions { M o = 50000; } \
     option (o) = { m { key: \"a\" value: 1 } m { key: \"b\" value: 2 } m { key: \"c\" value: 3 } m { key: \"d\" value: 4 } };",
)];
pub fn fixed(_: &Env, i: u64) -> Case {
    let (what, text) = FIXED[i as usize];
    let mut c = Case::new(text.to_owned());
    about_to_try(text);
    let p = Program {
        files: vec![("a.proto".into(), text.into())],
        roots: vec!["a.proto".into()],
    };
    let w = Work::Compile(p);
    let first = outcome(&w, 0);
    let n = (0..40).filter(|_| outcome(&w, 0) != first).count();
    if n > 0 {
        c.diffs.push(diff(Facet::Meta, format!("[{what}] {n} of 40 repetitions give other bytes")));
    }
    c
}

