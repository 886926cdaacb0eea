//! Histories of a compiler on a directory that changes under it (C21).
use crate::checks_after::told;
use crate::checks_compile::Scratch;
use crate::checks_parse::rng;
use crate::cmp::{diff, Diff, Facet};
use crate::drive::*;
use crate::rng::{fnv, Rng};
use prost::Message;
use protox::file::{ChainFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver};
use protox::{Compiler, Error};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::fs;
use std::path::{Path, PathBuf};

const NAMES: &[&str] = &["a.proto", "b.proto", "s/a.proto", "s/c.proto", "d.proto", "s/t/e.proto"];

/// Files as they were when the compiler read them, before those on disk.
struct Layer {
    held: BTreeMap<String, String>,
    disk: ChainFileResolver,
}
impl FileResolver for Layer {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.held.get(name) {
            Some(s) => File::from_source(name, s),
            None => self.disk.open_file(name),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    path: Option<PathBuf>,
    import: bool,
    proto: Vec<u8>,
}

fn look(k: &mut Compiler) -> Vec<(String, Seen)> {
    k.include_imports(true).include_source_info(true);
    let set = sut(|| k.file_descriptor_set());
    let mut v = vec![];
    for (m, f) in k.files().zip(&set.file) {
        v.push((
            m.name().to_owned(),
            Seen {
                path: m.path().map(Path::to_owned),
                import: m.is_import(),
                proto: f.encode_to_vec(),
            },
        ));
    }
    if v.len() != set.file.len() || v.iter().zip(&set.file).any(|(a, f)| a.0 != f.name()) {
        v.push(("files() and the set differ".into(), Seen { path: None, import: false, proto: vec![] }));
    }
    v
}

fn source(r: &mut Rng, k: &mut usize, name: &str) -> String {
    *k += 1;
    let mut s = String::from("syntax = 'proto3';\n");
    let mut uses = vec![];
    for n in NAMES {
        // mostly without cycles
        if (*n > name && r.one_in(3)) || (*n <= name && r.one_in(40)) {
            let _ = writeln!(s, "import {}'{n}';", r.pick(&["", "", "public "]));
            uses.push(n);
        }
    }
    if r.one_in(20) {
        s += "import 'gone.proto';\n";
    }
    if r.one_in(6) {
        s += "import 'google/protobuf/any.proto';\n";
    }
    let _ = writeln!(s, "message M{k} {{", k = *k);
    match r.below(14) {
        0 => s += "  int32 a = ;\n",
        1 => s += "  Nowhere a = 1;\n",
        2 => s += "  int32 a = 1; int32 a = 2;\n",
        3 => s += "  int32 a = 1 [(no.such).option = 1];\n",
        _ => s += "  int32 a = 1;\n",
    }
    s += "}\n";
    if r.one_in(6) {
        // a name other files may take, too
        s += r.pick(&["message Shared { }\n", "enum Shared { SHARED = 0; }\n", "message Other { message Shared { } }\n"]);
    }
    s
}

pub fn disk(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "disk histories", i);
    let dir = Scratch::new(env, "h", i);
    let includes: Vec<PathBuf> = (0..r.range(1, 3)).map(|i| dir.0.join(format!("inc{i}"))).collect();
    let mut k = 0;
    let mut desc = String::new();
    let abs = dir.0.to_string_lossy().into_owned();
    for d in &includes {
        fs::create_dir_all(d.join("s/t")).unwrap();
        for n in NAMES {
            if r.pct(if includes.len() == 1 { 85 } else { 45 }) {
                let s = source(&mut r, &mut k, n);
                let _ = writeln!(desc, "{}: {}", d.join(n).display(), s.replace('\n', " "));
                fs::write(d.join(n), s).unwrap();
            }
        }
    }
    let disk = || {
        let mut c = ChainFileResolver::new();
        for d in &includes {
            c.add(IncludeFileResolver::new(d.clone()));
        }
        c.add(GoogleFileResolver::new());
        c
    };
    let found = |n: &str| includes.iter().map(|d| d.join(n)).find(|p| p.is_file());
    let mut out: Vec<Diff> = vec![];
    let mut c = Case::new(String::new());
    let mut compiler = sut(|| Compiler::new(&includes)).unwrap();
    let mut held: BTreeMap<String, String> = BTreeMap::new();
    let mut done: Vec<String> = vec![];
    for _ in 0..r.range(4, 12) {
        if r.one_in(3) {
            // something happens to the directory
            let at = r.pick(&includes).join(r.pick(NAMES));
            if r.one_in(4) {
                let _ = fs::remove_file(&at);
                let _ = writeln!(desc, "-- {} removed", at.display());
            } else {
                let n = at.strip_prefix(&dir.0).unwrap().to_string_lossy()[5..].to_owned();
                let s = source(&mut r, &mut k, &n);
                let _ = writeln!(desc, "-- {}: {}", at.display(), s.replace('\n', " "));
                fs::write(&at, s).unwrap();
            }
            c.stat("changes on disk", 1);
            continue;
        }
        let n = *r.pick(NAMES);
        let (path, resolved) = match r.below(8) {
            0..=2 => (PathBuf::from(n), false),
            3 => (dir.0.join("other").join(n), false),
            4 => (r.pick(&includes).join(".").join(n), true),
            _ => (r.pick(&includes).join(n), true),
        };
        let _ = writeln!(desc, "-- open {}", path.display());
        about_to_try(&desc.replace(&abs, "T"));
        let before = look(&mut compiler);
        let got = sut(|| compiler.open_file(&path).map(|_| ()));
        let after = look(&mut compiler);
        let ok = got.is_ok();
        let mut bad = |t: String| out.push(diff(Facet::History, format!("opening {}: {t}", path.display()).replace(&abs, "T")));
        let was: BTreeMap<&String, &Seen> = before.iter().map(|x| (&x.0, &x.1)).collect();
        let is: BTreeMap<&String, &Seen> = after.iter().map(|x| (&x.0, &x.1)).collect();
        // what was there stays as it was
        for (m, x) in &was {
            match is.get(m) {
                None => bad(format!("{m} is gone")),
                Some(y) => {
                    if x.path != y.path || x.proto != y.proto {
                        bad(format!("{m} is another one than before"));
                    }
                    let want = x.import && !(ok && *m == n);
                    if y.import != want {
                        bad(format!("{m} is an import: {}, was one: {}, opened: {ok}", y.import, x.import));
                    }
                }
            }
        }
        // what is new is an import, or the file itself
        for (m, y) in &is {
            if !was.contains_key(m) {
                if y.import == (ok && *m == n) {
                    bad(format!("{m} is new, and an import: {}", y.import));
                }
                if !ok && *m == n {
                    bad("it failed to open, and is there".into());
                }
                let at = found(m);
                if y.path != at {
                    bad(format!("{m} came from {:?}, not from {at:?}", y.path));
                }
                if let Some(s) = at.and_then(|p| fs::read_to_string(p).ok()) {
                    held.insert(m.to_string(), s);
                }
            }
        }
        if ok && !is.contains_key(&n.to_owned()) {
            bad("it opened, and is not there".into());
        }
        // all that is there has what it imports
        let mut names = BTreeSet::new();
        for (m, y) in &after {
            let f = prost_types::FileDescriptorProto::decode(y.proto.as_slice()).unwrap_or_default();
            for d in &f.dependency {
                if !names.contains(d) {
                    bad(format!("{m} is there without or before {d}"));
                }
            }
            names.insert(m.clone());
        }
        // what had to happen
        if path.starts_with(dir.0.join("other")) {
            match &got {
                Err(e) if e.is_file_not_found() => (),
                x => bad(format!("not in an include path, and {x:?}")),
            }
            c.stat("opens outside", 1);
        } else {
            let from = match was.get(&n.to_owned()) {
                Some(s) => s.path.clone(),
                None => found(n),
            };
            let shadow = resolved && from.as_ref().is_some_and(|f| *f != path);
            let mut fresh = Compiler::with_file_resolver(Layer { held: held.clone(), disk: disk() });
            // files read for nothing on the way are still there
            let mut failed = None;
            for m in &done {
                if let Err(e) = sut(|| fresh.open_file(m).map(|_| ())) {
                    failed = Some(format!("a fresh compiler does not open {m}: {e:?}"));
                }
            }
            for m in was.keys() {
                if !done.contains(m) {
                    if let Err(e) = sut(|| fresh.open_file(m).map(|_| ())) {
                        failed = Some(format!("a fresh compiler does not open {m}: {e:?}"));
                    }
                }
            }
            if let Some(t) = failed {
                bad(t);
                break;
            }
            if shadow {
                // it may also fail for what is in it
                c.stat("shadowed paths", 1);
                if was.get(&n.to_owned()).is_some_and(|s| s.import) {
                    c.stat("shadowed paths of imports", 1);
                }
                match &got {
                    Ok(_) => bad(format!("it is shadowed by {from:?}, and opens")),
                    Err(e) if e.is_file_not_found() => bad(format!("it is shadowed by {from:?}, and {e:?}")),
                    Err(e) => {
                        let t = e.to_string();
                        let by = from.as_ref().unwrap().display().to_string();
                        if !t.contains("shadow") && !e.is_parse() || t.contains("shadow") && !format!("{t} {e:?}").contains(&by) {
                            bad(format!("it is shadowed by {from:?}, and {e:?}"));
                        }
                    }
                }
            } else {
                let want = sut(|| fresh.open_file(n).map(|_| ()));
                let (a, b) = (told(got.as_ref().map(|_| ())), told(want.as_ref().map(|_| ())));
                let root = |e: &Result<(), Error>| e.as_ref().is_err_and(|e| e.to_string().ends_with("is not in any include path"));
                if ok != want.is_ok() || a != b && !(root(&got) && root(&want)) {
                    bad(format!("it gives {a:?}, and {b:?} in a fresh compiler"));
                }
                if ok && want.is_ok() {
                    let w: BTreeMap<String, Seen> = look(&mut fresh).into_iter().collect();
                    for (m, y) in &is {
                        if w.get(*m).map(|w| &w.proto) != Some(&y.proto) {
                            bad(format!("{m} is another one than in a fresh compiler"));
                        }
                    }
                    c.stat("opened", 1);
                } else {
                    c.stat("failed", 1);
                    if was.keys().len() != is.keys().len() {
                        c.stat("failed, and left imports", 1);
                    }
                }
            }
        }
        if ok {
            done.push(n.to_owned());
        }
        c.stat("states compared", 1);
        if !out.is_empty() {
            break;
        }
    }
    c.input = desc.replace(&abs, "T");
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c.diffs = out;
    c
}
