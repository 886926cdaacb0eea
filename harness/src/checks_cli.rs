//! The command line, run as a process (C24).
use crate::checks_compile::{same_output, Scratch};
use crate::checks_parse::rng;
use crate::cmp::{diff, Facet};
use crate::drive::*;
use crate::gen;
use crate::prog;
use crate::rng::{fnv, Rng};
use protox::{Compiler, Error};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn snapshot(d: &Path, rel: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
    for e in fs::read_dir(d).unwrap() {
        let e = e.unwrap();
        let n = format!("{rel}/{}", e.file_name().to_string_lossy());
        let p = e.path();
        if fs::symlink_metadata(&p).unwrap().is_dir() {
            out.insert(n.clone(), None);
            snapshot(&p, &n, out);
        } else {
            if let Ok(to) = fs::read_link(&p) {
                out.insert(format!("{n} -> {}", to.display()), None);
            }
            out.insert(n, fs::read(&p).ok());
        }
    }
}

fn flag(r: &mut Rng, short: &str, long: &[&str], v: &str) -> Vec<String> {
    match r.below(6) {
        0 => vec![short.to_owned(), v.to_owned()],
        1 => vec![format!("{short}{v}")],
        2 => vec![format!("{short}={v}")],
        3 => vec![format!("{}={v}", r.pick(long))],
        _ => vec![(*r.pick(long)).to_owned(), v.to_owned()],
    }
}

fn letters(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Trouble {
    None,
    Mutated,
    MissingImport,
    MissingRoot,
    NotUtf8,
    OutDirMissing,
    OutIsDir,
    OutFull,
    NoFiles,
    UnknownFlag,
    ValueMissing,
}

pub fn commands(env: &Env, i: u64) -> Case {
    commands_in(env, "commands", i)
}
pub fn large(env: &Env, i: u64) -> Case {
    commands_in(env, "commands, large", i)
}
fn commands_in(env: &Env, stream: &str, i: u64) -> Case {
    let mut r = rng(env, stream, i);
    let p = prog::of(&mut r, stream, 4);
    let dir = Scratch::new(env, stream, i);
    let trouble = if r.one_in(2) {
        Trouble::None
    } else {
        *r.pick(&[
            Trouble::Mutated,
            Trouble::Mutated,
            Trouble::MissingImport,
            Trouble::MissingRoot,
            Trouble::NotUtf8,
            Trouble::OutDirMissing,
            Trouble::OutIsDir,
            Trouble::OutFull,
            Trouble::NoFiles,
            Trouble::UnknownFlag,
            Trouble::ValueMissing,
        ])
    };
    // files in one or two directories
    let default_include = r.one_in(4);
    let dirs: Vec<&str> = if default_include || r.one_in(2) { vec!["src"] } else { vec!["src", "more src"] };
    let mut place: BTreeMap<&str, &str> = BTreeMap::new();
    let mut victim = r.below(p.files.len());
    let leaves: Vec<usize> = (0..p.files.len()).filter(|k| !p.roots.contains(&p.files[*k].0)).collect();
    if trouble == Trouble::MissingImport && !leaves.is_empty() && !r.one_in(4) {
        victim = *r.pick(&leaves);
    }
    let mut decoy = false;
    for (k, (n, t)) in p.files.iter().enumerate() {
        let d = *r.pick(&dirs);
        place.insert(n, d);
        let mut t = t.clone().into_bytes();
        if k == victim {
            match trouble {
                Trouble::Mutated => t = gen::mutate_bytes(&mut r, &p.files[k].1).into_bytes(),
                Trouble::NotUtf8 => t.extend(b"// \xff\n"),
                Trouble::MissingImport => {
                    // there is one of that name where nobody is to look
                    if r.one_in(2) && !default_include && !p.roots.contains(n) {
                        dir.write(n, &t);
                        dir.write(&format!("src/elsewhere/{n}"), &t);
                        decoy = true;
                    }
                    continue;
                }
                _ => (),
            }
        }
        dir.write(&format!("{d}/{n}"), t);
    }
    for d in &dirs {
        fs::create_dir_all(dir.0.join(d)).unwrap();
    }
    let cwd = if default_include { dir.0.join("src") } else { dir.0.clone() };
    // the roots, as names or paths
    let mut roots: Vec<String> = p.roots.clone();
    if trouble == Trouble::MissingRoot {
        roots.insert(r.below(roots.len() + 1), "absent.proto".into());
    }
    if trouble == Trouble::NoFiles {
        roots.clear();
    }
    let mut args: Vec<Vec<String>> = vec![];
    let mut lib: Vec<PathBuf> = vec![];
    for f in &roots {
        let d = place.get(f.as_str()).copied().unwrap_or("src");
        let abs = dir.0.join(d).join(f);
        let up = if default_include { String::new() } else { format!("{d}/") };
        let (a, l) = match r.below(5) {
            0 => (format!("{up}{f}"), abs),
            1 => (format!("./{up}{f}"), abs),
            2 if !default_include => (abs.display().to_string(), abs),
            _ => (f.clone(), PathBuf::from(f)),
        };
        if r.one_in(8) {
            // the same again
            args.push(vec![a.clone()]);
            lib.push(l.clone());
        }
        args.push(vec![a]);
        lib.push(l);
    }
    let order: Vec<Vec<String>> = args.clone();
    // absolute paths need absolute includes, on both sides
    let absolute = order.iter().any(|a| a[0].starts_with('/'));
    let relative = order.iter().zip(&lib).any(|(a, l)| !a[0].starts_with('/') && l.is_absolute());
    let mut incs: Vec<PathBuf> = vec![];
    let mut mid: Vec<Vec<String>> = vec![];
    for d in &dirs {
        if default_include && r.one_in(2) {
            incs.push(dir.0.join("src"));
            continue;
        }
        if absolute && relative {
            // both spellings of the same directory
            let a = dir.0.join(d).display().to_string();
            mid.push(flag(&mut r, "-I", &["--include", "--proto_path"], d));
            mid.push(flag(&mut r, "-I", &["--include", "--proto_path"], &a));
        } else if absolute {
            let a = dir.0.join(d).display().to_string();
            mid.push(flag(&mut r, "-I", &["--include", "--proto_path"], &a));
        } else if default_include {
            let v = *r.pick(&[".", "./"]);
            mid.push(flag(&mut r, "-I", &["--include", "--proto_path"], v));
        } else {
            let v = match r.below(4) {
                0 => format!("./{d}"),
                1 => format!("{d}/"),
                _ => (*d).to_owned(),
            };
            mid.push(flag(&mut r, "-I", &["--include", "--proto_path"], &v));
        }
        incs.push(dir.0.join(d));
    }
    if absolute && relative {
        // shadowing by spelling is not what this is about
        return Case::new(String::new());
    }
    let imports = r.one_in(2);
    let info = r.one_in(2);
    if imports {
        mid.push(vec![(*r.pick(&["--include_imports", "--include-imports"])).to_owned()]);
    }
    if info {
        mid.push(vec![(*r.pick(&["--include_source_info", "--include-source-info"])).to_owned()]);
    }
    let out_name = match trouble {
        Trouble::OutDirMissing => Some("no/such/out.bin"),
        Trouble::OutIsDir => Some("out dir"),
        Trouble::OutFull => Some("/dev/full"),
        _ if r.one_in(6) => None,
        _ if r.one_in(20) => Some("/dev/stdout"),
        _ => Some(*r.pick(&["out.bin", "o ut", "sub/out.bin", "./out", "out=1"])),
    };
    let out = out_name.map(|o| cwd.join(o));
    let mut old = None;
    let to_stdout = out_name == Some("/dev/stdout");
    // the output may be another name of a file
    let mut alias = None;
    if let Some(o) = out.as_ref().filter(|_| !to_stdout && !matches!(trouble, Trouble::OutDirMissing | Trouble::OutFull)) {
        if trouble == Trouble::OutIsDir {
            fs::create_dir_all(o).unwrap();
        } else {
            fs::create_dir_all(o.parent().unwrap()).unwrap();
            if r.one_in(2) {
                let n = *r.pick(&[0, 10, 100_000]);
                let v: Vec<u8> = (0..n).map(|k| k as u8).collect();
                fs::write(o, &v).unwrap();
                old = Some(v);
                if r.one_in(6) {
                    let other = dir.0.join("the file itself");
                    fs::rename(o, &other).unwrap();
                    if r.one_in(2) {
                        std::os::unix::fs::symlink(&other, o).unwrap();
                    } else {
                        fs::hard_link(&other, o).unwrap();
                    }
                    alias = Some("/the file itself");
                }
            }
        }
    }
    if let Some(o) = out_name {
        mid.push(flag(&mut r, "-o", &["--output", "--descriptor_set_out"], o));
    }
    match trouble {
        Trouble::UnknownFlag => mid.push(vec![(*r.pick(&["--no-such-flag", "-q", "--include_import"])).to_owned()]),
        Trouble::ValueMissing => (),
        _ => (),
    }
    // includes keep their order, files keep theirs
    let mut words: Vec<String> = vec![];
    let mut files = args.into_iter().peekable();
    let includes: Vec<Vec<String>> = mid.iter().filter(|m| m[0].starts_with("-I") || m[0].starts_with("--include=") || m[0] == "--include" || m[0].starts_with("--proto_path")).cloned().collect();
    let mut rest: Vec<Vec<String>> = mid.iter().filter(|m| !includes.contains(m)).cloned().collect();
    let mut includes = includes.into_iter().peekable();
    loop {
        let k = r.below(3);
        if k == 0 && files.peek().is_some() {
            words.extend(files.next().unwrap());
        } else if k == 1 && includes.peek().is_some() {
            words.extend(includes.next().unwrap());
        } else if k == 2 && !rest.is_empty() {
            let j = r.below(rest.len());
            words.extend(rest.remove(j));
        } else if files.peek().is_none() && includes.peek().is_none() && rest.is_empty() {
            break;
        }
    }
    if trouble == Trouble::ValueMissing {
        words.push((*r.pick(&["-o", "-I", "--output", "--include", "--proto_path", "--descriptor_set_out"])).to_owned());
    }
    let text = format!("protox {words:?} in {}\n{trouble:?}\n{}", cwd.display(), p.show()).replace(&*dir.0.to_string_lossy(), "T");
    let mut c = Case::new(text);
    about_to_try(&c.input);
    // the library
    let mine = sut(|| -> Result<Vec<u8>, Error> {
        let mut k = Compiler::new(&incs)?;
        k.include_imports(imports).include_source_info(info);
        for l in &lib {
            k.open_file(l)?;
        }
        Ok(k.encode_file_descriptor_set())
    });
    let usage = matches!(trouble, Trouble::NoFiles | Trouble::UnknownFlag | Trouble::ValueMissing);
    let no_write = matches!(trouble, Trouble::OutDirMissing | Trouble::OutIsDir | Trouble::OutFull);
    let should = mine.is_ok() && !usage && !no_write;
    let mut before = BTreeMap::new();
    snapshot(&dir.0, "", &mut before);
    let exe = std::env::current_exe().unwrap().with_file_name("protox");
    let run = Command::new(exe)
        .args(&words)
        .current_dir(&cwd)
        .env_remove("RUST_BACKTRACE")
        .env("NO_COLOR", "1")
        .stdin(Stdio::null())
        .output()
        .expect("the command");
    let err = String::from_utf8_lossy(&run.stderr).into_owned();
    let shown: String = err.chars().take(600).collect();
    let mut bad = |t: String| c.diffs.push(diff(Facet::Output, format!("{t}; standard error: {shown}")));
    if run.status.signal().is_some() || run.status.code() == Some(101) {
        bad(format!("it crashed: {}", run.status));
    }
    if run.status.success() != should {
        bad(format!("exit status {}, and it should {}: {:?}", run.status, if should { "succeed" } else { "fail" }, mine.as_ref().err()));
    }
    if !run.stdout.is_empty() && !(to_stdout && should) {
        bad(format!("it writes to standard output: {:?}", String::from_utf8_lossy(&run.stdout)));
    }
    if !should && err.trim().is_empty() {
        bad("it fails without a word".into());
    }
    if let (Err(e), false) = (&mine, usage) {
        let m = e.to_string();
        if !m.contains('/') && !letters(&err).contains(&letters(&m)) {
            bad(format!("the error {m:?} is not told"));
        }
    }
    let mut after = BTreeMap::new();
    snapshot(&dir.0, "", &mut after);
    let key = out.as_ref().filter(|_| !no_write && !to_stdout).map(|o| {
        let rel = o.strip_prefix(&dir.0).unwrap();
        let rel: PathBuf = rel.components().filter(|c| *c != std::path::Component::CurDir).collect();
        format!("/{}", rel.display())
    });
    if should {
        let mine = mine.unwrap();
        if to_stdout {
            match same_output(&p.show(), &run.stdout, &mine) {
                Ok(()) => c.stats.push(("outputs to a pipe compared".into(), 1)),
                Err(e) => bad(format!("the output is not the library's: {e}")),
            }
        } else if let Some(k) = &key {
            if let Some(a) = alias {
                match after.remove(a) {
                    Some(Some(b)) => match same_output(&p.show(), &b, &mine) {
                        Ok(()) => c.stats.push(("outputs by another name compared".into(), 1)),
                        Err(e) => bad(format!("the output under its other name is not the library's: {e}")),
                    },
                    _ => bad("the output's other name is gone".into()),
                }
                before.remove(a);
            }
            match after.remove(k) {
                Some(Some(b)) => match same_output(&p.show(), &b, &mine) {
                    Ok(()) => c.stats.push(("outputs compared".into(), 1)),
                    Err(e) => bad(format!("the output is not the library's: {e}")),
                },
                _ => bad("no output is written".into()),
            }
            before.remove(k);
        } else {
            c.stats.push(("runs without output".into(), 1));
        }
    } else {
        if let (Some(k), Some(old)) = (&key, &old) {
            if after.get(k) != Some(&Some(old.clone())) {
                bad("it fails, and the old output is not as it was".into());
            }
        }
        c.stats.push(("failures".into(), 1));
        c.stats.push((format!("failures: {trouble:?}"), 1));
        if decoy {
            c.stats.push(("failures: the file is elsewhere".into(), 1));
        }
    }
    if before != after {
        let d: Vec<_> = after.keys().chain(before.keys()).filter(|k| after.get(*k) != before.get(*k)).collect();
        let t = format!("it leaves changes in {d:?}");
        c.diffs.push(diff(Facet::Output, format!("{t}; standard error: {shown}")));
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}
