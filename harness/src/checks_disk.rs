//! Files on disk: where they are looked for (C18) and what is made of what is there (C22).
use crate::checks_compile::{Entry, Mem, Scratch};
use crate::checks_parse::rng;
use crate::cmp::{diff, Diff, Facet};
use crate::drive::*;
use crate::gen::{self, Cfg};
use crate::rng::{fnv, Rng};
use protox::file::{ChainFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver};
use protox::{Compiler, Error};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::fmt::Write as _;
use std::fs;
use std::io::{self, Write as _};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, FileExt, OpenOptionsExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Once};

static CWD: Once = Once::new();
/// All relative paths are relative to the scratch directory of the run.
pub fn go_to_scratch(env: &Env) {
    CWD.call_once(|| std::env::set_current_dir(&env.scratch).unwrap());
}

// ---- a model of paths, on bytes

/// The components of a path without `.`; a leading slash is a component of its own.
fn comps(p: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if p.first() == Some(&b'/') {
        v.push(b"/".to_vec());
    }
    for c in p.split(|b| *b == b'/') {
        if !c.is_empty() && c != b"." {
            v.push(c.to_vec());
        }
    }
    v
}

fn name_of(c: &[Vec<u8>]) -> Option<String> {
    if c.is_empty() || c.iter().any(|x| x == b".." || x == b"/") {
        return None;
    }
    let parts: Option<Vec<&str>> = c.iter().map(|x| std::str::from_utf8(x).ok()).collect();
    Some(parts?.join("/"))
}

fn under(path: &[u8], include: &[u8]) -> Option<String> {
    let (p, i) = (comps(path), comps(include));
    name_of(p.strip_prefix(i.as_slice())?)
}

/// The name of a path that is under no include path.
fn bare(path: &[u8]) -> Option<String> {
    if path == b"." || path.starts_with(b"./") {
        return None;
    }
    name_of(&comps(path))
}

fn show(p: &[u8]) -> String {
    format!("{:?}", OsStr::from_bytes(p))
}
fn path(p: &[u8]) -> PathBuf {
    PathBuf::from(OsString::from_vec(p.to_vec()))
}

const BUILTIN: &[&str] = &[
    "any.proto", "api.proto", "descriptor.proto", "duration.proto", "empty.proto", "field_mask.proto",
    "source_context.proto", "struct.proto", "timestamp.proto", "type.proto", "wrappers.proto", "compiler/plugin.proto",
];
fn builtin(n: &str) -> bool {
    n.strip_prefix("google/protobuf/").is_some_and(|n| BUILTIN.contains(&n))
}

enum Found {
    At(Vec<u8>),
    Builtin,
    Missing,
    /// Something else than a file is in the way: not judged
    Odd,
}

fn find(includes: &[Vec<u8>], name: &str) -> Found {
    for i in includes {
        let mut p = i.clone();
        if !p.is_empty() && p.last() != Some(&b'/') {
            p.push(b'/');
        }
        p.extend(name.as_bytes());
        match fs::metadata(path(&p)) {
            Ok(m) if m.is_file() => return Found::At(p),
            Ok(_) => return Found::Odd,
            Err(e) if matches!(e.raw_os_error(), Some(libc::ENOENT | libc::ENOTDIR)) => (),
            Err(_) => return Found::Odd,
        }
    }
    if builtin(name) {
        Found::Builtin
    } else {
        Found::Missing
    }
}

// ---- C18

const DIRS: &[&[u8]] = &[b"a", b"b", b"a/s", b"d e", "\u{e9}".as_bytes(), b"n\xff", b"b/google/protobuf", b"."];
const NAMES: &[&str] = &[
    "x.proto", "y.proto", "s/x.proto", "s/y.proto", "s/t/z.proto", "google/protobuf/any.proto", "google/protobuf/own.proto",
    "any.proto", "plain", "\u{4e16}.proto", "a/x.proto", "b/y.proto",
];
const LIBS: &[&str] = &["lib1.proto", "l/lib2.proto", "google/protobuf/empty.proto"];

struct Tree {
    root: Vec<u8>, // relative to the working directory
    abs: Vec<u8>,
    desc: String,
}

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = parts[0].to_vec();
    for p in &parts[1..] {
        v.push(b'/');
        v.extend(*p);
    }
    v
}

fn tree(r: &mut Rng, dir: &Scratch) -> Tree {
    let abs = dir.0.as_os_str().as_bytes().to_vec();
    let root = dir.0.file_name().unwrap().as_bytes().to_vec();
    let mut desc = String::new();
    let mut k = 0;
    let put = |r: &mut Rng, p: Vec<u8>, k: &mut usize, desc: &mut String, lib: bool| {
        let at = path(&p);
        if fs::symlink_metadata(&at).is_ok() {
            return;
        }
        let up = at.parent().unwrap();
        if r.one_in(40) && fs::symlink_metadata(up).is_err() {
            // a file in place of a directory
            if let Some(upup) = up.parent() {
                let _ = fs::create_dir_all(upup);
            }
            let _ = fs::write(up, "syntax = 'proto3';");
            let _ = writeln!(desc, "{} is a regular file", show(up.as_os_str().as_bytes()));
            return;
        }
        if fs::create_dir_all(up).is_err() {
            return;
        }
        if r.one_in(25) {
            let _ = symlink("nowhere-at-all", &at);
            let _ = writeln!(desc, "{} is a dangling link", show(&p));
            return;
        }
        *k += 1;
        let mut s = String::from("syntax = 'proto3';\n");
        if !lib {
            for l in LIBS {
                if r.one_in(3) {
                    let _ = writeln!(s, "import '{l}';");
                }
            }
        }
        // not a declaration: one file may be reached by two names
        let _ = writeln!(s, "option java_package = 'M{k}';", k = *k);
        let _ = writeln!(desc, "{}: {}", show(&p), s.replace('\n', " "));
        if r.one_in(12) {
            let real = format!("real{k}", k = *k);
            fs::write(dir.0.join(&real), s).unwrap();
            let _ = symlink(dir.0.join(real), &at);
        } else {
            fs::write(&at, s).unwrap();
        }
    };
    for d in DIRS {
        for n in NAMES {
            if r.pct(30) {
                put(r, cat(&[&abs, d, n.as_bytes()]), &mut k, &mut desc, false);
            }
        }
        for l in LIBS {
            if r.pct(25) {
                put(r, cat(&[&abs, d, l.as_bytes()]), &mut k, &mut desc, true);
            }
        }
    }
    if r.one_in(3) {
        let _ = symlink("a", dir.0.join("lnk"));
        desc += "lnk is a link to a\n";
    }
    Tree { root, abs, desc }
}

/// A spelling of a path below the root of the tree, relative to the working directory or absolute.
fn spell(r: &mut Rng, t: &Tree, rest: &[&[u8]]) -> Vec<u8> {
    let mut p = match r.below(4) {
        0 | 1 => t.abs.clone(),
        2 => t.root.clone(),
        _ => cat(&[b".", &t.root]),
    };
    for x in rest {
        for c in x.split(|b| *b == b'/') {
            p.extend(match r.below(24) {
                0 => &b"//"[..],
                1 => b"/./",
                2 => b"/../",
                _ => b"/",
            });
            if p.ends_with(b"/../") {
                // in and out again
                let l = if r.one_in(2) { t.root.clone() } else { b"a".to_vec() };
                p.truncate(p.len() - 4);
                p.push(b'/');
                p.extend(&l);
                p.extend(b"/../");
                if l == t.root {
                    // that directory is not there: the path leads nowhere
                }
            }
            p.extend(c);
        }
    }
    if r.one_in(16) {
        p.push(b'/');
    }
    p
}

fn mark_at(p: &[u8]) -> Option<String> {
    let s = fs::read_to_string(path(p)).ok()?;
    Some(s.split("option java_package = '").nth(1)?.split('\'').next()?.to_owned())
}

fn deps_at(p: &[u8]) -> Vec<String> {
    let s = fs::read_to_string(path(p)).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("import '")?.strip_suffix("';"))
        .map(str::to_owned)
        .collect()
}

pub fn paths(env: &Env, i: u64) -> Case {
    go_to_scratch(env);
    let mut r = rng(env, "paths", i);
    let dir = Scratch::new(env, "t", i);
    let t = tree(&mut r, &dir);
    let mut includes: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(1, 4) {
        let d: &[u8] = if r.one_in(10) { b"lnk" } else if r.one_in(15) { b"absent" } else { r.pick(DIRS) };
        if r.one_in(12) {
            // everything below the working directory
            includes.push(match r.below(4) {
                0 | 1 => vec![],
                2 => b".".to_vec(),
                _ => env.scratch.as_os_str().as_bytes().to_vec(),
            });
        }
        includes.push(spell(&mut r, &t, &[d]));
    }
    let mut opens: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(1, 6) {
        let n = if r.one_in(6) { *r.pick(LIBS) } else { *r.pick(NAMES) };
        opens.push(match r.below(10) {
            0 | 1 => n.as_bytes().to_vec(),
            2 => {
                let mut v = match r.below(4) {
                    0 => b"./".to_vec(),
                    1 => b"../".to_vec(),
                    2 => b"s/../".to_vec(),
                    _ => b"s/./".to_vec(),
                };
                v.extend(n.as_bytes());
                v
            }
            3 if r.one_in(3) => (*r.pick(&[&b""[..], b".", b"..", b"/", b"n\xff.proto", b"x.proto/", b"//x.proto"])).to_vec(),
            4..=7 => {
                // below one of the include paths, spelled as it is
                let mut v = r.pick(&includes).clone();
                v.push(b'/');
                if r.one_in(8) {
                    v.extend(b"./");
                }
                v.extend(n.as_bytes());
                v
            }
            _ => {
                let d: &[u8] = r.pick(DIRS);
                spell(&mut r, &t, &[d, n.as_bytes()])
            }
        });
    }
    let text = format!(
        "working directory {}\n{}includes: {:?}\nopens: {}\n",
        env.scratch.display(),
        t.desc,
        includes.iter().map(|x| show(x)).collect::<Vec<_>>(),
        opens.iter().map(|x| show(x)).collect::<Vec<_>>().join(", ")
    );
    // the name of the scratch directory differs from run to run
    let plain = text.replace(&*dir.0.to_string_lossy(), "T");
    let mut c = Case::new(plain);
    about_to_try(&c.input);
    let mut out: Vec<Diff> = vec![];
    // all of it may come to be after the compiler
    let late = r.one_in(6);
    let away = dir.0.with_extension("away");
    if late {
        fs::rename(&dir.0, &away).expect("scratch");
        c.stat("trees made after the compiler", 1);
    }
    let new = sut_catch(|| Compiler::new(includes.iter().map(|p| path(p))).map_err(|e| format!("{e:?}"))).and_then(|k| k);
    if late {
        fs::rename(&away, &dir.0).expect("scratch");
    }
    let mut k = match new {
        Ok(k) => k,
        Err(e) => {
            c.diffs.push(diff(Facet::Resolve, format!("Compiler::new: {e:?}")));
            return c;
        }
    };
    let mut loaded: BTreeMap<String, bool> = BTreeMap::new();
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    'ops: for o in &opens {
        let p = path(o);
        let resolved = includes.iter().find_map(|i| under(o, i));
        let name = resolved.clone().or_else(|| bare(o));
        let e = sut(|| k.open_file(&p).err());
        let mut bad = |t: String| out.push(diff(Facet::Resolve, format!("opening {}: {t}", show(o))));
        let not_found = |e: &Option<Error>, bad: &mut dyn FnMut(String)| match e {
            None => bad("opens, and there is no such file".into()),
            Some(e) if !e.is_file_not_found() || e.is_io() || e.is_parse() => bad(format!("not reported as not found: {e:?}")),
            Some(e) => {
                let want = format!("file '{}' is not in any include path", p.display());
                // paths are rendered as given
                if e.to_string() != want && !e.to_string().contains(&format!("{p:?}").trim_matches('"').to_string()) {
                    bad(format!("the error does not name the path: {e}"));
                }
            }
        };
        let Some(name) = name else {
            c.stat("paths that have no name", 1);
            not_found(&e, &mut bad);
            continue;
        };
        let at = match find(&includes, &name) {
            Found::Odd => {
                c.stat("not judged", 1);
                break;
            }
            Found::Missing => {
                c.stat("paths that lead nowhere", 1);
                not_found(&e, &mut bad);
                continue;
            }
            Found::Builtin => {
                if resolved.is_some() {
                    c.stat("not judged", 1);
                    break;
                }
                c.stat("built-in files", 1);
                if let Some(e) = e {
                    bad(format!("a built-in file does not open: {e:?}"));
                    break;
                }
                None
            }
            Found::At(p) => Some(p),
        };
        if let (Some(at), Some(_)) = (&at, &resolved) {
            if comps(at) != comps(o) {
                // the name leads to an earlier include
                c.stat("shadowed paths", 1);
                match e {
                    None => bad(format!("opens, although {} has its name {name}", show(at))),
                    Some(e) => {
                        let m = e.to_string();
                        if !m.contains("is shadowed by") || e.is_file_not_found() || e.is_parse() || e.is_io() {
                            // an import may be missing as well
                            let lost = !loaded.contains_key(&name) && deps_at(at).iter().any(|d| matches!(find(&includes, d), Found::Missing | Found::Odd));
                            if !lost {
                                bad(format!("not reported as shadowed: {e:?}"));
                            }
                        } else {
                            if e.file() != Some(&name) {
                                bad(format!("the error is placed in {:?}, not {name}", e.file()));
                            }
                            for x in [o, at] {
                                if !m.contains(&*path(x).to_string_lossy()) {
                                    bad(format!("the error does not name {}: {m}", show(x)));
                                }
                            }
                        }
                    }
                }
                continue;
            }
        }
        // it should open, with its imports
        let mut all = vec![(name.clone(), at.clone())];
        if let Some(at) = &at {
            for d in deps_at(at) {
                match find(&includes, &d) {
                    Found::At(p) => all.push((d, Some(p))),
                    Found::Builtin => all.push((d, None)),
                    Found::Missing if !loaded.contains_key(&name) => {
                        c.stat("missing imports", 1);
                        match &e {
                            Some(e) if e.is_file_not_found() && e.file() == Some(&name) => (),
                            e => bad(format!("its import {d} is missing, and the outcome is {e:?}")),
                        }
                        break 'ops;
                    }
                    _ => {
                        c.stat("not judged", 1);
                        break 'ops;
                    }
                }
            }
        }
        let marks: Vec<Option<String>> = all.iter().map(|(_, p)| p.as_ref().and_then(|p| mark_at(p))).collect();
        if marks.iter().zip(&all).any(|(m, (n, _))| seen.iter().any(|(k, v)| k != n && Some(v) == m.as_ref())) {
            c.stat("one file under two names", 1);
        }
        if let Some(e) = e {
            bad(format!("name {name}, found at {:?}: {e:?}", at.as_ref().map(|p| show(p))));
            break;
        }
        c.stat("files opened", 1);
        for (j, (n, _)) in all.iter().enumerate() {
            if j == 0 {
                loaded.insert(n.clone(), false);
            } else {
                loaded.entry(n.clone()).or_insert(true);
            }
        }
        for ((n, p), m) in all.iter().zip(&marks) {
            if let Some(m) = m {
                seen.insert(n.clone(), m.clone());
            }
            let Some((mp, im)) = sut(|| k.files().find(|f| f.name() == *n).map(|f| (f.path().map(Path::to_owned), f.is_import()))) else {
                bad(format!("{n} is not among the files"));
                continue;
            };
            if im != loaded[n] {
                bad(format!("{n}: import is {im}"));
            }
            match (&mp, p) {
                (None, None) => (),
                (Some(a), Some(b)) if comps(a.as_os_str().as_bytes()) == comps(b) => (),
                (a, b) => bad(format!("{n}: its path is given as {a:?}, not {:?}", b.as_ref().map(|b| show(b)))),
            }
            let pool = sut(|| k.descriptor_pool());
            let got = pool.get_file_by_name(n).map(|f| f.file_descriptor_proto().options.clone().unwrap_or_default().java_package);
            match (m, got) {
                (Some(m), Some(Some(g))) if g == *m => (),
                (None, Some(_)) => (),
                (m, g) => bad(format!("{n}: it holds {g:?}, not {m:?}")),
            }
        }
        let names: BTreeSet<String> = sut(|| k.files().map(|f| f.name().to_owned()).collect());
        if !names.iter().eq(loaded.keys()) {
            bad(format!("the files are {names:?}, not {loaded:?}"));
        }
        if !out.is_empty() {
            break;
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c.diffs = out;
    c
}

const PARTS: &[&str] = &["a", "b", ".", "..", ""];
fn all_paths(max: usize) -> Vec<String> {
    let mut level = vec![String::new()];
    let mut all = vec![];
    for _ in 0..max {
        let mut next = vec![];
        for p in &level {
            for x in PARTS {
                let q = if p.is_empty() { (*x).to_owned() } else { format!("{p}/{x}") };
                next.push(q);
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    let abs: Vec<String> = all.iter().map(|p| format!("/{p}")).collect();
    all.extend(abs);
    all.sort();
    all.dedup();
    all
}
pub fn lexical_len() -> u64 {
    all_paths(3).len() as u64
}
/// Every path of up to four parts against every include of up to three.
pub fn lexical(_env: &Env, i: u64) -> Case {
    let inc = all_paths(3).swap_remove(i as usize);
    let mut c = Case::new(format!("include {inc:?}"));
    about_to_try(&c.input);
    let res = IncludeFileResolver::new(PathBuf::from(&inc));
    let mut n = 0;
    for p in all_paths(4) {
        let p = format!("{p}/f.proto");
        let got = sut(|| res.resolve_path(Path::new(&p)));
        let want = under(p.as_bytes(), inc.as_bytes());
        n += 1;
        if got != want {
            c.diffs.push(diff(Facet::Resolve, format!("include {inc:?}, path {p:?}: {got:?}, not {want:?}")));
        }
    }
    c.stat("paths mapped to names", n);
    c.nontrivial = Some(fnv(inc.as_bytes()));
    c
}

/// Chains of resolvers.
pub fn chains(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "chains", i);
    let names = ["x.proto", "y.proto", "google/protobuf/any.proto", "google/protobuf/own.proto", "d/z.proto"];
    let paths = ["/in/x.proto", "in/y.proto", "z", "/elsewhere"];
    let n = r.below(5);
    let mut models: Vec<(BTreeMap<String, (String, Entry)>, BTreeMap<PathBuf, String>)> = vec![];
    let mut text = String::new();
    let mut google_at = vec![];
    for k in 0..n {
        if r.one_in(5) {
            google_at.push(k);
            let _ = writeln!(text, "{k}: built-in files");
            models.push(Default::default());
            continue;
        }
        let mut files = BTreeMap::new();
        for name in names {
            if r.one_in(2) {
                continue;
            }
            let id = format!("M{k}");
            let e = match r.below(8) {
                0 => Entry::Fail(format!("failure {k}")),
                1 => Entry::FailIo(format!("disk {k}")),
                2 => Entry::Source("message {".into()),
                _ => Entry::Source(format!("syntax = 'proto3'; message {id} {{ }}")),
            };
            let what = match &e {
                Entry::Source(s) => s.clone(),
                Entry::Fail(s) => format!("custom {s}"),
                Entry::FailIo(s) => format!("io {s}"),
                _ => String::new(),
            };
            let _ = writeln!(text, "{k}: {name} {what}");
            files.insert(name.to_owned(), (id, e));
        }
        let mut ps = BTreeMap::new();
        for p in paths {
            if r.one_in(4) {
                let t = r.pick(&names).to_string();
                let _ = writeln!(text, "{k}: path {p} is {t}");
                ps.insert(PathBuf::from(p), t);
            }
        }
        models.push((files, ps));
    }
    let nest = n > 1 && r.one_in(2);
    let mut c = Case::new(format!("{text}nested: {nest}\n"));
    about_to_try(&c.input);
    let mut mems = vec![];
    let mut chain = ChainFileResolver::new();
    let mut inner = ChainFileResolver::new();
    for (k, (f, p)) in models.iter().enumerate() {
        let res: Box<dyn FileResolver> = if google_at.contains(&k) {
            Box::new(GoogleFileResolver::new())
        } else {
            let m = Mem {
                files: Arc::new(f.iter().map(|(n, e)| (n.clone(), e.1.clone())).collect()),
                paths: Arc::new(p.clone()),
                ..Mem::default()
            };
            mems.push((k, m.clone()));
            Box::new(m)
        };
        if nest && k >= 1 {
            inner.add(res);
        } else {
            chain.add(res);
        }
    }
    chain.add(inner);
    for p in paths {
        let want = models.iter().find_map(|m| m.1.get(Path::new(p)).cloned());
        let got = sut(|| chain.resolve_path(Path::new(p)));
        if got != want {
            c.diffs.push(diff(Facet::Resolve, format!("path {p}: {got:?}, not {want:?}")));
        }
    }
    for name in names.iter().chain(&["other.proto"]) {
        let mut want: Result<Option<&str>, String> = Ok(None); // None: not found
        let mut asked = vec![];
        for (k, (f, _)) in models.iter().enumerate() {
            if google_at.contains(&k) {
                if builtin(name) {
                    want = Ok(Some("Any"));
                    break;
                }
                continue;
            }
            asked.push(k);
            match f.get(*name) {
                None => continue,
                Some((id, Entry::Source(s))) if !s.ends_with('{') => want = Ok(Some(id)),
                Some((_, Entry::Source(_))) => want = Err("parse".into()),
                Some((_, Entry::Fail(e))) => want = Err(e.clone()),
                Some((_, Entry::FailIo(e))) => want = Err(e.clone()),
                _ => (),
            }
            break;
        }
        let got = sut(|| chain.open_file(name));
        let ok = match (&want, &got) {
            (Ok(Some(id)), Ok(f)) => f.name() == *name && f.file_descriptor_proto().message_type.first().is_some_and(|m| m.name() == *id),
            (Ok(None), Err(e)) => e.is_file_not_found() && e.to_string() == format!("file '{name}' not found"),
            (Err(w), Err(e)) if w == "parse" => e.is_parse() && e.file() == Some(name),
            (Err(w), Err(e)) => e.to_string() == *w && e.is_io() == w.starts_with("disk") && !e.is_file_not_found() && !e.is_parse(),
            _ => false,
        };
        if !ok {
            c.diffs.push(diff(Facet::Resolve, format!("{name}: expected {want:?}, got {got:?}")));
        }
        for (k, m) in &mems {
            let l = m.take_log();
            let should = asked.contains(k) as usize;
            if l.len() != should {
                c.diffs.push(diff(Facet::Resolve, format!("{name}: resolver {k} was asked {l:?}, expected {should} times")));
            }
        }
        c.stat("names looked up", 1);
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

/// The built-in files are there under exactly their names.
pub fn builtins(_env: &Env, i: u64) -> Case {
    let g = GoogleFileResolver::new();
    let n = format!("google/protobuf/{}", BUILTIN[i as usize]);
    let mut c = Case::new(n.clone());
    about_to_try(&n);
    match sut(|| g.open_file(&n)) {
        Err(e) => c.diffs.push(diff(Facet::Resolve, format!("{n}: {e:?}"))),
        Ok(f) => {
            let want = fs::read_to_string(Path::new(env!("CARGO_MANIFEST_DIR")).join("../shadow/protox/protobuf/src").join(&n)).unwrap();
            if f.name() != n || f.source() != Some(&want) || f.path().is_some() {
                c.diffs.push(diff(Facet::Resolve, format!("{n}: it is not the built-in file")));
            }
            let want = sut(|| protox_parse::parse(&n, &want)).ok();
            if want.as_ref() != Some(f.file_descriptor_proto()) {
                c.diffs.push(diff(Facet::Resolve, format!("{n}: its descriptor is not that of its source")));
            }
        }
    }
    for m in [BUILTIN[i as usize].to_owned(), format!("/{n}"), format!("./{n}"), n.to_uppercase(), format!("{n}.proto"), n.replace(".proto", "")] {
        let e = sut(|| g.open_file(&m));
        if !e.as_ref().is_err_and(|e| e.is_file_not_found()) {
            c.diffs.push(diff(Facet::Resolve, format!("{m}: {:?}", e.map(|f| f.name().to_owned()))));
        }
        if sut(|| g.resolve_path(Path::new(&m))).is_some() {
            c.diffs.push(diff(Facet::Resolve, format!("{m} is mapped to a name")));
        }
    }
    let e = sut(|| Compiler::with_file_resolver(GoogleFileResolver::new()).open_file(&n).err());
    if let Some(e) = e {
        c.diffs.push(diff(Facet::Resolve, format!("{n} does not compile: {e:?}")));
    }
    c.nontrivial = Some(fnv(n.as_bytes()));
    c
}
pub const BUILTINS_LEN: u64 = BUILTIN.len() as u64;

// ---- C22

fn same_outcome(what: &str, a: &Result<File, Error>, b: &Result<File, Error>, out: &mut Vec<Diff>) {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a.file_descriptor_proto() != b.file_descriptor_proto() {
                out.push(diff(Facet::Io, format!("{what}: the descriptors differ")));
            }
            if a.source() != b.source() {
                out.push(diff(
                    Facet::Io,
                    format!("{what}: the sources differ in length {:?} against {:?} or in content", a.source().map(str::len), b.source().map(str::len)),
                ));
            }
            if a.name() != b.name() {
                out.push(diff(Facet::Io, format!("{what}: names {:?} {:?}", a.name(), b.name())));
            }
        }
        (Err(a), Err(b)) => {
            let f = |e: &Error| (format!("{e:?}"), e.to_string(), e.file().map(str::to_owned), e.is_parse(), e.is_io(), e.is_file_not_found());
            if f(a) != f(b) {
                out.push(diff(Facet::Io, format!("{what}: errors differ: {:?} against {:?}", f(a), f(b))));
            }
        }
        (a, b) => out.push(diff(Facet::Io, format!("{what}: {:?} against {:?}", a.as_ref().err(), b.as_ref().err()))),
    }
}

fn text(r: &mut Rng) -> String {
    let cfg = Cfg {
        bytes: if r.one_in(3) { 30 } else { 0 },
        ..Cfg::default()
    };
    let mut s = match r.below(12) {
        0 => String::new(),
        1 => "\u{feff}".into(),
        2 => "\u{feff}syntax = 'proto3';\r\nmessage M { }\r\n".into(),
        3 => "\0".into(),
        _ => gen::make(r, &cfg),
    };
    if r.one_in(12) {
        // around the sizes of buffers
        let n = *r.pick(&[8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 300_000]);
        let pad = *r.pick(&["// \u{e9}\u{4e16}\u{1f600} padding\n", "/* x */\r\n", "           \n"]);
        let mut t = String::new();
        while t.len() + s.len() < n {
            t += pad;
        }
        s = if r.one_in(2) { t + &s } else { s + "\n" + &t };
        while s.len() > n && r.one_in(2) {
            s.pop();
        }
    }
    if r.one_in(6) {
        // bytes that some systems take for marks, at either end
        let m = *r.pick(&["\u{1a}", "\0", "\u{feff}", "\r", "\n\n", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", " \t", "\u{4}", "\\"]);
        let m = if r.one_in(2) { format!("// {m}") } else { m.to_owned() };
        s = if r.one_in(4) { m + &s } else { s + &m };
    }
    s
}

pub fn contents(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "contents", i);
    let dir = Scratch::new(env, "c", i);
    let src = text(&mut r);
    let name = *r.pick(&["f.proto", "d/f.proto", "no extension", "\u{e9}.proto"]);
    dir.write(name, &src);
    let p = dir.0.join(name);
    let mut c = Case::new(format!("{name}\n{src}"));
    about_to_try(&c.input);
    let disk = sut(|| File::open(name, &p));
    let mem = sut(|| File::from_source(name, &src));
    same_outcome("from disk against from memory", &disk, &mem, &mut c.diffs);
    if let Ok(f) = &disk {
        if f.path() != Some(&p) {
            c.diffs.push(diff(Facet::Io, format!("the path is given as {:?}", f.path())));
        }
        if f.source() != Some(&src) {
            c.diffs.push(diff(Facet::Io, "the source is not what is on disk"));
        }
        c.stat("files read", 1);
        c.stat("bytes read", src.len());
    } else {
        c.stat("files with errors", 1);
    }
    if let Ok(f) = &mem {
        if f.path().is_some() {
            c.diffs.push(diff(Facet::Io, format!("a path {:?} out of nothing", f.path())));
        }
    }
    let inc = IncludeFileResolver::new(dir.0.clone());
    let third = sut(|| inc.open_file(name));
    same_outcome("through the include path", &third, &mem, &mut c.diffs);
    // a pipe, in pieces
    if r.one_in(24) && src.len() < 60_000 {
        let p = dir.0.join("pipe");
        let cp = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
        // SAFETY: a valid string
        if unsafe { libc::mkfifo(cp.as_ptr(), 0o600) } == 0 {
            let stop = AtomicBool::new(false);
            let piece = r.range(1, src.len().max(1));
            let got = std::thread::scope(|sc| {
                sc.spawn(|| loop {
                    if stop.load(SeqCst) {
                        return;
                    }
                    match fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&p) {
                        Ok(mut f) => {
                            for x in src.as_bytes().chunks(piece.max(src.len() / 50 + 1)) {
                                if f.write_all(x).is_err() {
                                    return;
                                }
                                std::thread::yield_now();
                            }
                            return;
                        }
                        Err(_) => std::thread::sleep(std::time::Duration::from_micros(50)),
                    }
                });
                let g = sut_catch(|| File::open(name, &p));
                stop.store(true, SeqCst);
                g
            });
            c.stat("pipes read", 1);
            match got {
                Ok(g) => same_outcome("from a pipe", &g, &mem, &mut c.diffs),
                Err(e) => c.diffs.push(diff(Facet::Crash, e)),
            }
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    NotFound,
    Utf8,
    Large,
    Io,
}

/// Bytes that are no UTF-8, at all kinds of places.
fn bad_utf8(r: &mut Rng) -> Vec<u8> {
    let mut s = text(r).into_bytes();
    let bad: &[u8] = r.pick(&[
        &b"\xff"[..], b"\xc3", b"\xe4\xb8", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\x80", b"\xfe\xff",
    ]);
    let at = match r.below(4) {
        0 => 0,
        1 | 2 => s.len(),
        _ => r.below(s.len() + 1),
    };
    s.splice(at..at, bad.iter().copied());
    while std::str::from_utf8(&s).is_ok() {
        s.push(0xff);
    }
    s
}

/// While it lives, this thread reaches files as a user with no privileges does.
struct Unprivileged;

impl Unprivileged {
    fn new(really: bool) -> Option<Self> {
        // Only the thread's own identity for files changes. It is restored when dropped.
        really.then(|| {
            unsafe { libc::setfsuid(65534) };
            Unprivileged
        })
    }
}

impl Drop for Unprivileged {
    fn drop(&mut self) {
        unsafe { libc::setfsuid(0) };
    }
}

pub fn faults(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "faults", i);
    let dir = Scratch::new(env, "f", i);
    let d = &dir.0;
    fs::create_dir_all(d.join("inc2")).unwrap();
    fs::create_dir_all(d.join("inc")).unwrap();
    let what = r.below(15);
    let denied = what == 13 || what == 14;
    let deep = r.one_in(2);
    let base = if deep { "s/t/f.proto" } else { "f.proto" };
    let mut name = base.to_owned();
    let p = d.join("inc").join(base);
    let mk = |p: &Path| fs::create_dir_all(p.parent().unwrap()).unwrap();
    let (kind, label): (Kind, &str) = match what {
        0 => (Kind::NotFound, "nothing there"),
        1 => {
            mk(&p);
            (Kind::NotFound, "the directory is there, the file is not")
        }
        2 => {
            mk(&p);
            symlink(d.join("nowhere"), &p).unwrap();
            (Kind::NotFound, "a dangling link")
        }
        3 => {
            // a file in place of a directory
            name = if deep { "s/t/f.proto".into() } else { "s/f.proto".into() };
            let at = if deep && r.one_in(2) {
                fs::create_dir_all(d.join("inc/s")).unwrap();
                "s/t"
            } else {
                "s"
            };
            fs::write(d.join("inc").join(at), "syntax = 'proto3';").unwrap();
            (Kind::NotFound, "a file in place of a directory")
        }
        4 => {
            fs::create_dir_all(&p).unwrap();
            (Kind::Io, "a directory")
        }
        5 => {
            mk(&p);
            symlink(&p, &p).unwrap();
            (Kind::Io, "a link to itself")
        }
        6 => {
            mk(&p);
            let q = d.join("other");
            symlink(&p, &q).unwrap();
            symlink(&q, &p).unwrap();
            (Kind::Io, "a loop of links")
        }
        7 => {
            name = format!("{}.proto", "n".repeat(r.range(256, 600)));
            (Kind::Io, "a name too long")
        }
        8 => {
            name = format!("{}f.proto", "deep/".repeat(900));
            (Kind::Io, "a path too long")
        }
        9 => {
            name = (*r.pick(&["f\0.proto", "\0", "s/\0/f.proto"])).to_owned();
            (Kind::Io, "a NUL in the name")
        }
        10 => {
            mk(&p);
            let f = fs::File::create(&p).unwrap();
            let n = *r.pick(&[1u64 << 31, (1 << 31) + 1, 1 << 33, (1 << 32) + 100, (1 << 40) - 1]);
            if f.set_len(n).is_err() {
                f.set_len(1 << 31).unwrap();
            }
            (Kind::Large, "a file too large")
        }
        11 => {
            mk(&p);
            let s = std::os::unix::net::UnixListener::bind(&p);
            if s.is_err() {
                // the path is too long for a socket
                fs::create_dir_all(&p).unwrap();
                (Kind::Io, "a directory")
            } else {
                (Kind::Io, "a socket")
            }
        }
        13 => {
            mk(&p);
            fs::write(&p, "syntax = 'proto3'; message Secret { }").unwrap();
            chmod(&p, 0o000);
            (Kind::Io, "a file that may not be read")
        }
        14 => {
            name = "s/t/f.proto".into();
            let p = d.join("inc").join(&name);
            mk(&p);
            // what is in it makes no difference
            if r.one_in(2) {
                fs::write(&p, "syntax = 'proto3'; message Secret { }").unwrap();
            }
            chmod(&d.join(if deep { "inc/s" } else { "inc/s/t" }), 0o600);
            (Kind::Io, "a directory that may not be searched")
        }
        _ => {
            mk(&p);
            fs::write(&p, bad_utf8(&mut r)).unwrap();
            (Kind::Utf8, "no UTF-8")
        }
    };
    let p = d.join("inc").join(&name);
    let mut c = Case::new(format!("{label}: {}", name.chars().take(60).collect::<String>()));
    c.input += &format!(" [{i}]");
    about_to_try(&c.input);
    c.stat(label, 1);
    let os: Option<io::Error> = if kind == Kind::Io {
        let _as = Unprivileged::new(denied);
        fs::read(&p).err()
    } else {
        None
    };
    if denied && os.is_none() {
        // the user of this run has a way round permissions
        c.stat("faults that could not be made", 1);
        return c;
    }
    let mut out = vec![];
    let mut judge = |route: &str, e: &Error, import: bool| {
        let mut bad = |t: String| out.push(diff(Facet::Io, format!("{label}, {route}: {t} (error {e:?})").chars().take(900).collect::<String>()));
        let flags = (e.is_file_not_found(), e.is_parse(), e.is_io());
        let want = match kind {
            Kind::NotFound => (true, false, false),
            Kind::Utf8 | Kind::Large => (false, true, false),
            Kind::Io => (false, false, true),
        };
        if flags != want {
            bad(format!("classified as {flags:?}, not {want:?}"));
        }
        let m = e.to_string();
        match kind {
            Kind::NotFound => {
                if !m.contains(&name) {
                    bad("the name is not in the message".into());
                }
            }
            Kind::Utf8 if !m.contains("utf-8") || !m.contains(&name) => bad("the message does not say so".into()),
            Kind::Large if !m.contains("too large") || !m.contains(&name) => bad("the message does not say so".into()),
            Kind::Io => {
                if !m.contains(&*p.to_string_lossy()) {
                    bad("the path is not in the message".into());
                }
                let mut s: Option<&dyn std::error::Error> = std::error::Error::source(e);
                let mut found = None;
                while let Some(x) = s {
                    if let Some(x) = x.downcast_ref::<io::Error>() {
                        found = Some((x.kind(), x.raw_os_error()));
                    }
                    s = x.source();
                }
                if let Some(os) = &os {
                    if found != Some((os.kind(), os.raw_os_error())) {
                        bad(format!("its source is {found:?}, not {:?}", (os.kind(), os.raw_os_error())));
                    }
                }
            }
            _ => (),
        }
        if kind != Kind::NotFound && e.file() != Some(&name) {
            bad(format!("placed in {:?}", e.file()));
        }
        if import && kind == Kind::NotFound && e.file() != Some("root.proto") {
            bad(format!("placed in {:?}, not in the importing file", e.file()));
        }
    };
    match sut(|| {
        let _as = Unprivileged::new(denied);
        File::open(&name, &p)
    }) {
        Err(e) => judge("File::open", &e, false),
        Ok(_) => out_push(&mut c, format!("{label}: File::open succeeds")),
    }
    match sut(|| {
        let _as = Unprivileged::new(denied);
        IncludeFileResolver::new(d.join("inc")).open_file(&name)
    }) {
        Err(e) => judge("IncludeFileResolver", &e, false),
        Ok(_) => out_push(&mut c, format!("{label}: IncludeFileResolver succeeds")),
    }
    // in a chain: only what is not there is looked for further on
    let second = r.one_in(2) && !name.contains('\0') && name.len() < 250;
    if second {
        let q = d.join("inc2").join(&name);
        fs::create_dir_all(q.parent().unwrap()).unwrap();
        fs::write(&q, "syntax = 'proto3'; message Second { }").unwrap();
    }
    let incs = [d.join("inc"), d.join("inc2")];
    let root = Mem {
        files: Arc::new(
            [(
                "root.proto".to_owned(),
                Entry::Proto(prost_types::FileDescriptorProto {
                    name: Some("root.proto".into()),
                    dependency: vec![name.clone()],
                    ..Default::default()
                }),
            )]
            .into_iter()
            .collect(),
        ),
        ..Mem::default()
    };
    for import in [false, true] {
        let mut chain = ChainFileResolver::new();
        chain.add(root.clone());
        for i in &incs {
            chain.add(IncludeFileResolver::new(i.clone()));
        }
        let mut k = Compiler::with_file_resolver(chain);
        let target = if import { "root.proto" } else { name.as_str() };
        let e = sut(|| {
            let _as = Unprivileged::new(denied);
            k.open_file(target).err()
        });
        let route = if import { "as an import" } else { "Compiler" };
        match (e, second && kind == Kind::NotFound) {
            (None, true) => {
                c.stat("found in the next include path", 1);
                if sut(|| k.descriptor_pool()).get_message_by_name("Second").is_none() {
                    out_push(&mut c, format!("{label}, {route}: something else was opened"));
                }
            }
            (Some(e), false) => judge(route, &e, import),
            (Some(e), true) if what == 4 => judge(route, &e, import),
            (e, _) => out_push(&mut c, format!("{label}, {route}: outcome {e:?}")),
        }
    }
    c.diffs.extend(out);
    c.nontrivial = Some(fnv(format!("{}{second}{deep}", c.input).as_bytes()));
    c
}

fn chmod(p: &Path, mode: u32) {
    fs::set_permissions(p, fs::Permissions::from_mode(mode)).unwrap();
}

fn out_push(c: &mut Case, t: String) {
    c.diffs.push(diff(Facet::Io, t.chars().take(900).collect::<String>()));
}

/// What a resolver reports comes through unchanged.
pub fn passed_on(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "passed on", i);
    let io_kind = *r.pick(&[
        io::ErrorKind::NotFound,
        io::ErrorKind::PermissionDenied,
        io::ErrorKind::InvalidData,
        io::ErrorKind::Other,
        io::ErrorKind::Interrupted,
        io::ErrorKind::UnexpectedEof,
    ]);
    #[derive(Debug)]
    struct Own(u64);
    impl std::fmt::Display for Own {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "own failure {}\n\u{1f600} line two", self.0)
        }
    }
    impl std::error::Error for Own {}
    let kind = r.below(6);
    let n = r.next();
    let make = move || -> Error {
        match kind {
            0 => Error::new(Own(n)),
            1 => Error::new(format!("text {n}")),
            2 => io::Error::new(io_kind, format!("io {n}")).into(),
            3 => Error::new(io::Error::new(io_kind, format!("io {n}"))),
            4 => protox_parse::parse("else.proto", "message {").unwrap_err().into(),
            _ => Error::file_not_found(&format!("other{}.proto", n % 5)),
        }
    };
    struct R<F>(F, String);
    impl<F: Fn() -> Error> FileResolver for R<F> {
        fn open_file(&self, name: &str) -> Result<File, Error> {
            if name == self.1 {
                return Err((self.0)());
            }
            let mut s = String::from("syntax = 'proto3';");
            if name == "a.proto" {
                s += "import 'b.proto';";
            }
            if name == "b.proto" {
                s += "import 'c.proto';";
            }
            File::from_source(name, &s)
        }
    }
    let at = *r.pick(&["a.proto", "b.proto", "c.proto"]);
    let e = make();
    let mut c = Case::new(format!("{e:?} for {at}, {n}"));
    about_to_try(&c.input);
    let mut chain = ChainFileResolver::new();
    chain.add(R(make, at.to_owned()));
    let got = if r.one_in(2) {
        sut(|| Compiler::with_file_resolver(chain).open_file("a.proto").err())
    } else {
        sut(|| Compiler::with_file_resolver(R(make, at.to_owned())).open_file("a.proto").err())
    };
    let flags = |e: &Error| (e.is_file_not_found(), e.is_parse(), e.is_io());
    let want = match kind {
        0 | 1 => (false, false, false),
        2 | 3 => (false, false, true),
        4 => (false, true, false),
        _ => (true, false, false),
    };
    if flags(&e) != want {
        c.diffs.push(diff(Facet::Io, format!("the error made is classified {:?}, not {want:?}", flags(&e))));
    }
    match got {
        None => c.diffs.push(diff(Facet::Io, "the failure is lost")),
        Some(g) => {
            if flags(&g) != want {
                c.diffs.push(diff(Facet::Io, format!("classified {:?}, not {want:?}", flags(&g))));
            }
            if kind < 5 && (g.to_string() != e.to_string() || format!("{g:?}") != format!("{e:?}") || g.file() != e.file()) {
                c.diffs.push(diff(Facet::Io, format!("came through as {g:?}")));
            }
        }
    }
    c.stat("failures passed on", 1);
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

/// The largest file that is allowed, and the one a byte larger.
pub fn largest(env: &Env, i: u64) -> Case {
    const MAX: u64 = i32::MAX as u64;
    let dir = Scratch::new(env, "largest", i);
    fs::create_dir_all(&dir.0).unwrap();
    let p = dir.0.join("f.proto");
    // The file takes no space: almost all of it is a hole, within a comment.
    let (head, tail) = (&b"syntax = 'proto3'; /* "[..], &b" */ message Last { }"[..]);
    let mut c = Case::new(format!("a file of {} bytes", MAX + i));
    about_to_try(&c.input);
    let f = fs::File::create(&p).unwrap();
    f.write_all_at(head, 0).unwrap();
    f.write_all_at(tail, MAX + i - tail.len() as u64).unwrap();
    drop(f);
    match (i, sut(|| File::open("f.proto", &p))) {
        (0, Ok(f)) => {
            let last = f.file_descriptor_proto().message_type.first().map(|m| m.name());
            if last != Some("Last") || f.source().map(|s| s.len() as u64) != Some(MAX) {
                out_push(&mut c, "the largest file is not read to its end".into());
            }
        }
        (0, Err(e)) => out_push(&mut c, format!("the largest file: {}", e.to_string().chars().take(200).collect::<String>())),
        (_, Ok(_)) => out_push(&mut c, "a file that is too large is opened".into()),
        (_, Err(e)) => {
            if !e.is_parse() || e.is_io() || e.is_file_not_found() || !e.to_string().contains("too large") || e.file() != Some("f.proto") {
                out_push(&mut c, format!("too large: {}", e.to_string().chars().take(200).collect::<String>()));
            }
        }
    }
    c.stat("files at the limit of size", 1);
    c.nontrivial = Some(i + 1);
    c
}

/// The same of texts that are given.
pub fn largest_text(_: &Env, i: u64) -> Case {
    let n = i32::MAX as usize + i as usize;
    let mut c = Case::new(format!("a text of {n} bytes"));
    about_to_try(&c.input);
    let (head, tail) = ("message First { } //", "\nmessage Last { }");
    let mut s = String::with_capacity(n);
    s += head;
    s.extend(std::iter::repeat(' ').take(n - head.len() - tail.len()));
    s += tail;
    let got = if i < 2 { sut(|| protox_parse::parse("f.proto", &s).map_err(Error::from)) } else { sut(|| File::from_source("f.proto", &s).map(Into::into)) };
    match got {
        Ok(f) if n > i32::MAX as usize || f.message_type.len() != 2 => out_push(&mut c, "a text that is too large is accepted, or not read to its end".into()),
        Ok(_) => (),
        Err(e) => {
            let e = e.to_string();
            if n <= i32::MAX as usize || !e.contains("too large") {
                out_push(&mut c, e.chars().take(200).collect());
            }
        }
    }
    c.stat("files at the limit of size", 1);
    c.nontrivial = Some(i + 1);
    c
}
