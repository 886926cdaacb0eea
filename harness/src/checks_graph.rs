//! Import graphs: an executable model of what opening files must do, against the compiler on a
//! resolver in memory that logs every file it is asked for.
use crate::checks_compile::{deps, topological, Entry, Mem, Scratch};
use crate::checks_parse::rng;
use crate::cmp::{diff, Diff, Facet};
use crate::drive::*;
use crate::rng::{fnv, Rng};
use miette::Diagnostic;
use prost::Message;
use protox::{Compiler, Error};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum Flaw {
    None,
    Parse,
    Semantic(String), // the text of the unknown type
    Fail(String),
    FailIo(String),
}

#[derive(Clone, Debug)]
struct Node {
    imports: Vec<(String, &'static str)>,
    /// Byte span of each import statement
    spans: Vec<(usize, usize)>,
    source: String,
    flaw: Flaw,
    form: &'static str, // source, proto, bare proto, encoded
    message: String,
}

#[derive(Clone, Debug)]
enum Op {
    Open(String),
    OpenMany(Vec<String>),
    Imports(bool),
    Info(bool),
}

pub struct GraphCfg {
    pub files: (usize, usize),
    pub density: usize,
    pub cycles: usize,  // percent of files with an import of any file
    pub missing: usize, // percent of files
    pub dup: usize,
    pub flaws: usize,
    pub ops: (usize, usize),
    pub forms: bool,
    /// Many files, with the other percentages per graph and not per file
    pub large: bool,
    /// On disk, below two directories
    pub disk: bool,
}

struct Graph {
    nodes: BTreeMap<String, Node>,
    /// A file nothing imports
    top: String,
    /// Where they are on disk
    dirs: Vec<PathBuf>,
    /// There are no well-known files besides
    bare: bool,
}

const WKT: &[&str] = &[
    "google/protobuf/any.proto",
    "google/protobuf/empty.proto",
    "google/protobuf/type.proto",
    "google/protobuf/api.proto",
    "google/protobuf/descriptor.proto",
];
fn wkt_imports(n: &str) -> &'static [&'static str] {
    match n {
        "google/protobuf/type.proto" => &["google/protobuf/any.proto", "google/protobuf/source_context.proto"],
        "google/protobuf/api.proto" => &["google/protobuf/source_context.proto", "google/protobuf/type.proto"],
        _ => &[],
    }
}
fn is_wkt(n: &str) -> bool {
    WKT.contains(&n) || n == "google/protobuf/source_context.proto"
}

/// Where the resolver says its files are; they have no path themselves.
const VIRTUAL: &[&str] = &["/virtual/", "vdir/"];

/// A way to ask for a file.
fn spell(r: &mut Rng, n: &str) -> String {
    match r.below(12) {
        0 | 1 => format!("/virtual/{n}"),
        2 => format!("vdir/{n}"),
        3 => format!("/virtual/./{}", n.replace('/', "//")),
        4 => n.replace('/', "//"),
        5 => n.replace('/', "/./"),
        6 if r.one_in(4) => format!("{}{n}", r.pick(&["/elsewhere/", "../", "/", "/virtual/../"])),
        _ => n.to_owned(),
    }
}
/// The name of the file so asked for.
fn plain(p: &str) -> String {
    let p = VIRTUAL.iter().find_map(|v| p.strip_prefix(v)).unwrap_or(p);
    p.strip_prefix("./").unwrap_or(p).replace("//", "/").replace("/./", "/")
}

impl Graph {
    fn imports(&self, n: &str) -> Vec<String> {
        match self.nodes.get(n) {
            Some(n) => n.imports.iter().map(|i| i.0.clone()).collect(),
            None => wkt_imports(n).iter().map(|x| x.to_string()).collect(),
        }
    }
    fn exists(&self, n: &str) -> bool {
        self.nodes.contains_key(n) || (!self.bare && is_wkt(n))
    }
    fn unreadable(&self, n: &str) -> bool {
        matches!(self.nodes.get(n).map(|n| &n.flaw), Some(Flaw::Parse | Flaw::Fail(_) | Flaw::FailIo(_)))
    }

    fn generate(r: &mut Rng, c: &GraphCfg) -> Graph {
        let n = r.range(c.files.0, c.files.1);
        let mut names: Vec<String> = vec![];
        for i in 0..n {
            let b = *r.pick(&["a", "b", "d/a", "d/e/c", "x y", "\u{e9}", "long_name_of_a_file", "k", "m", "q"]);
            let s = if r.one_in(8) { format!("{b}{i}") } else { format!("{b}{i}.proto") };
            names.push(s);
        }
        // the user's own file in the place of a well-known one
        if r.one_in(10) {
            names[0] = "google/protobuf/duration.proto".into();
        }
        let mut nodes = BTreeMap::new();
        let shape = r.below(4);
        let bare = c.missing > 0 && r.one_in(5);
        // a permutation, so that names say nothing about order
        for k in (1..names.len()).rev() {
            let j = r.below(k + 1);
            names.swap(j, k);
        }
        for i in 0..n {
            let mut imports: Vec<(String, &'static str)> = vec![];
            let kind = |r: &mut Rng| *r.pick(&["", "", "", "public", "weak"]);
            let rare = |r: &mut Rng, pct: usize| if c.large { r.below(100 * n) < pct } else { r.pct(pct) };
            let hub = c.large && (i == n - 1 || i == n / 2);
            for j in 0..i {
                let joined = match (c.large, shape) {
                    (false, _) => r.pct(c.density),
                    // a chain
                    (_, 0) => j + 1 == i,
                    // a star, or two
                    (_, 1) => hub && r.pct(98),
                    // a chain with short cuts
                    (_, 2) => j + 1 == i || r.below(i) < 2 || (i == n - 1 && r.pct(50)),
                    // a loose web
                    (_, _) => r.below(i) < 3 || (hub && r.pct(70)),
                };
                if joined {
                    imports.push((names[j].clone(), kind(r)));
                }
            }
            if r.one_in(6) {
                imports.push((r.pick(WKT).to_string(), kind(r)));
            }
            if rare(r, c.cycles) {
                let t = names[r.below(n)].clone();
                if !imports.iter().any(|x| x.0 == t) {
                    imports.push((t, kind(r)));
                }
            }
            if rare(r, c.missing) {
                imports.push((format!("no{}.proto", r.below(3)), kind(r)));
            }
            for k in (1..imports.len()).rev() {
                let j = r.below(k + 1);
                imports.swap(j, k);
            }
            if rare(r, c.dup) && !imports.is_empty() {
                let d = imports[r.below(imports.len())].0.clone();
                let at = r.below(imports.len() + 1);
                imports.insert(at, (d, kind(r)));
            }
            let flaw = if rare(r, c.flaws) {
                match r.below(if c.disk { 2 } else { 4 }) {
                    0 => Flaw::Parse,
                    1 => Flaw::Semantic(format!("Nowhere{i}")),
                    2 => Flaw::Fail(format!("resolver failure {i}")),
                    _ => Flaw::FailIo(format!("disk failure {i}")),
                }
            } else {
                Flaw::None
            };
            // text
            let nl = if r.one_in(5) { "\r\n" } else { "\n" };
            let mut s = String::new();
            if r.one_in(6) {
                s.push('\u{feff}');
            }
            let _ = write!(s, "syntax = \"proto2\";{nl}");
            let _ = write!(s, "package p{i};{nl}");
            let mut spans = vec![];
            for (t, k) in &imports {
                if r.one_in(3) {
                    let _ = write!(s, "{}{nl}", r.pick(&["// comment", "/* \u{4e16}\u{754c} */ /* \u{1f600} */", "// \u{e9}\u{e9}", "\t"]));
                }
                if r.one_in(4) {
                    s += *r.pick(&["  ", "/* \u{e9} */ ", "\t", ";"]);
                }
                let a = s.len();
                s += "import ";
                if r.one_in(8) {
                    s += nl;
                }
                if !k.is_empty() {
                    s += k;
                    s += if r.one_in(6) { "\t/* \u{1f600} */ " } else { " " };
                }
                let cut = (0..=t.len() / 2).rev().find(|c| t.is_char_boundary(*c)).unwrap();
                if r.one_in(8) {
                    let _ = write!(s, "'{}'{nl}  \"{}\"", &t[..cut], &t[cut..]);
                } else if r.one_in(2) {
                    let _ = write!(s, "'{t}'");
                } else {
                    let _ = write!(s, "\"{t}\"");
                }
                if r.one_in(8) {
                    s += " ";
                }
                s += ";";
                spans.push((a, s.len()));
                if !r.one_in(6) {
                    s += nl;
                }
            }
            let message = format!("M{i}");
            let _ = write!(s, "{nl}message {message} {{{nl}");
            let mut k = 0;
            for (t, _) in &imports {
                if let Some(j) = names.iter().position(|x| x == t) {
                    k += 1;
                    let w = match r.below(3) {
                        0 => format!(".p{j}.M{j}"),
                        _ => format!("p{j}.M{j}"),
                    };
                    let _ = write!(s, "  optional {w} f{k} = {k};{nl}");
                } else if t == "google/protobuf/any.proto" {
                    k += 1;
                    let _ = write!(s, "  optional google.protobuf.Any f{k} = {k};{nl}");
                }
            }
            if let Flaw::Semantic(t) = &flaw {
                let _ = write!(s, "  /* {} */ repeated {t} unknown = 100;{nl}", if r.one_in(2) { "x" } else { "..." });
            }
            if flaw == Flaw::Parse {
                s += "  optional = ;";
            }
            s += "}";
            s += nl;
            let form = if c.forms {
                *r.pick(&["source", "source", "source", "proto", "bare proto", "encoded"])
            } else {
                "source"
            };
            let form = if matches!(flaw, Flaw::Parse) { "source" } else { form };
            nodes.insert(
                names[i].clone(),
                Node {
                    imports,
                    spans,
                    source: s,
                    flaw,
                    form,
                    message,
                },
            );
        }
        let top = names.last().cloned().unwrap_or_default();
        Graph {
            nodes,
            top,
            dirs: vec![],
            bare,
        }
    }

    /// Which of the directories holds the file
    fn holder(&self, n: &str) -> Option<&PathBuf> {
        self.dirs.get(fnv(n.as_bytes()) as usize / 7 % self.dirs.len().max(1))
    }

    fn spell(&self, r: &mut Rng, n: &str) -> String {
        let s = spell(r, n);
        let Some(d) = self.holder(n) else { return s };
        let d = format!("{}/", d.display());
        match s.strip_prefix("/virtual/../") {
            Some(s) => format!("/elsewhere/{s}"),
            None => match VIRTUAL.iter().find_map(|v| s.strip_prefix(v)) {
                Some(s) => format!("{d}{s}"),
                None => s,
            },
        }
    }

    /// The name of the file so asked for.
    fn plain(&self, p: &str) -> String {
        let here = self.dirs.iter().find_map(|d| p.strip_prefix(d.to_str()?)?.strip_prefix('/'));
        plain(here.unwrap_or(p))
    }

    fn write(&mut self, dir: &Scratch) {
        self.dirs = ["one", "the other/one"].map(|d| dir.0.join(d)).to_vec();
        for d in &self.dirs {
            std::fs::create_dir_all(d).expect("scratch");
        }
        for (n, x) in &self.nodes {
            let p = self.holder(n).unwrap().join(n);
            std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
            std::fs::write(p, &x.source).expect("scratch");
        }
    }

    fn mem(&self) -> Mem {
        if !self.dirs.is_empty() {
            return Mem {
                dirs: Arc::new(self.dirs.clone()),
                bare: self.bare,
                ..Mem::default()
            };
        }
        let mut files = BTreeMap::new();
        for (n, x) in &self.nodes {
            let e = match &x.flaw {
                Flaw::Fail(t) => Entry::Fail(t.clone()),
                Flaw::FailIo(t) => Entry::FailIo(t.clone()),
                _ => match x.form {
                    "source" => Entry::Source(x.source.clone()),
                    form => match sut(|| protox_parse::parse(n, &x.source)) {
                        Err(_) => Entry::Source(x.source.clone()),
                        Ok(mut p) => {
                            if form == "bare proto" {
                                p.source_code_info = None;
                            }
                            if form == "encoded" {
                                Entry::Encoded(p.encode_to_vec())
                            } else {
                                Entry::Proto(p)
                            }
                        }
                    },
                },
            };
            files.insert(n.clone(), e);
        }
        let paths = files.keys().flat_map(|n| VIRTUAL.iter().map(move |v| (format!("{v}{n}").into(), n.clone()))).collect();
        Mem {
            files: Arc::new(files),
            paths: Arc::new(paths),
            bare: self.bare,
            ..Mem::default()
        }
    }

    /// Everything reachable, not looking into files already loaded or unreadable.
    fn reach(&self, f: &str, loaded: &BTreeMap<String, bool>) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![f.to_owned()];
        while let Some(x) = todo.pop() {
            if loaded.contains_key(&x) || !self.exists(&x) || !seen.insert(x.clone()) {
                continue;
            }
            if !self.unreadable(&x) {
                todo.extend(self.imports(&x));
            }
        }
        seen
    }

    /// Whether opening the file must fail.
    fn must_fail(&self, f: &str, loaded: &BTreeMap<String, bool>) -> bool {
        if loaded.contains_key(f) {
            return false;
        }
        if !self.exists(f) {
            return true;
        }
        let reach = self.reach(f, loaded);
        for g in &reach {
            if self.nodes.get(g).is_some_and(|n| n.flaw != Flaw::None) {
                return true;
            }
            let im = self.imports(g);
            let set: BTreeSet<&String> = im.iter().collect();
            if set.len() != im.len() || im.iter().any(|x| !self.exists(x)) {
                return true;
            }
        }
        // a cycle among them: peel off files whose imports are all gone
        let mut left: BTreeSet<String> = reach;
        loop {
            let free: Vec<String> = left.iter().filter(|g| self.imports(g).iter().all(|i| !left.contains(i))).cloned().collect();
            if free.is_empty() {
                return !left.is_empty();
            }
            for f in free {
                left.remove(&f);
            }
        }
    }

    /// Judges an error of opening f; returns its kind.
    fn judge_error(&self, path: &str, f: &str, loaded: &BTreeMap<String, bool>, e: &Error, out: &mut Vec<Diff>) -> &'static str {
        let reach = self.reach(f, loaded);
        let msg = e.to_string();
        let mut bad = |t: String| out.push(diff(Facet::Error, format!("opening {f:?}: {t} (error: {e:?})")));
        let flags = (e.is_file_not_found(), e.is_parse(), e.is_io());
        let label = || -> Option<(usize, usize)> {
            let l = e.labels()?.next()?;
            Some((l.offset(), l.offset() + l.len()))
        };
        if let Err(t) = sut_catch(|| {
            let mut s = String::new();
            let _ = miette::GraphicalReportHandler::new_themed(miette::GraphicalTheme::unicode_nocolor()).render_report(&mut s, e);
            format!("{e} {e:?} {s}")
        }) {
            bad(format!("the report does not render: {t}"));
        }
        if msg == format!("file '{path}' is not in any include path") {
            if self.exists(f) {
                bad("the file exists".into());
            }
            if flags != (true, false, false) || e.file().is_some() {
                bad(format!("wrongly classified {flags:?} or placed {:?}", e.file()));
            }
            return "root not found";
        }
        if let Some(name) = msg.strip_prefix("import '").and_then(|m| m.strip_suffix("' not found")) {
            let Some(g) = e.file() else {
                bad("no importing file is named".into());
                return "import not found";
            };
            if flags != (true, false, false) {
                bad(format!("wrongly classified {flags:?}"));
            }
            if self.exists(name) {
                bad("the import exists".into());
            }
            if !reach.contains(g) || !self.imports(g).iter().any(|i| i == name) {
                bad(format!("{g:?} is not a reachable file that imports it"));
                return "import not found";
            }
            self.judge_span(g, name, 0, label(), &format!("{e:?}"), &mut bad);
            return "import not found";
        }
        if let Some(name) = msg.strip_prefix("import '").and_then(|m| m.strip_suffix("' was listed twice")) {
            let Some(g) = e.file() else {
                bad("no importing file is named".into());
                return "duplicate import";
            };
            if flags != (false, false, false) {
                bad(format!("wrongly classified {flags:?}"));
            }
            if !reach.contains(g) || self.imports(g).iter().filter(|i| *i == name).count() < 2 {
                bad(format!("{g:?} is not a reachable file that imports it twice"));
                return "duplicate import";
            }
            self.judge_span(g, name, 1, label(), &format!("{e:?}"), &mut bad);
            return "duplicate import";
        }
        if let Some(c) = msg.strip_prefix("import cycle detected: ") {
            let chain: Vec<&str> = c.split(" -> ").collect();
            if chain.len() < 2 || chain[0] != f {
                bad("the chain does not start at the opened file".into());
            }
            for w in chain.windows(2) {
                if !self.imports(w[0]).iter().any(|i| i == w[1]) {
                    bad(format!("{} does not import {}", w[0], w[1]));
                }
            }
            let last = chain[chain.len() - 1];
            if !chain[..chain.len() - 1].contains(&last) {
                bad("the chain does not come back to itself".into());
            }
            let mut once = chain[..chain.len() - 1].to_vec();
            once.sort();
            once.dedup();
            if once.len() != chain.len() - 1 {
                bad("the chain visits a file twice on the way".into());
            }
            if !e.file().is_some_and(|f| chain.contains(&f)) {
                bad(format!("the file {:?} is not on the cycle", e.file()));
            }
            if flags != (false, false, false) {
                bad(format!("wrongly classified {flags:?}"));
            }
            return "cycle";
        }
        // failures of single files
        for g in &reach {
            let Some(n) = self.nodes.get(g) else { continue };
            match &n.flaw {
                Flaw::Fail(t) if msg == *t => {
                    if flags != (false, false, false) {
                        bad(format!("wrongly classified {flags:?}"));
                    }
                    return "resolver failure";
                }
                Flaw::FailIo(t) if msg == *t => {
                    if flags != (false, false, true) {
                        bad(format!("wrongly classified {flags:?}"));
                    }
                    return "i/o failure";
                }
                Flaw::Parse if e.file() == Some(g) => {
                    let want = sut(|| protox_parse::parse(g, &n.source)).err();
                    if flags != (false, true, false) {
                        bad(format!("wrongly classified {flags:?}"));
                    }
                    if let Some(w) = want {
                        if w.to_string() != msg || format!("{w:?}") != format!("{e:?}") {
                            bad(format!("the parser says {w:?}"));
                        }
                    }
                    return "parse error";
                }
                Flaw::Semantic(t) if e.file() == Some(g) => {
                    if flags != (false, false, false) {
                        bad(format!("wrongly classified {flags:?}"));
                    }
                    if !msg.contains(t.as_str()) {
                        bad(format!("it does not name {t}"));
                    }
                    // the position of the name, where the source is at hand
                    if n.form == "source" {
                        match label() {
                            Some((a, b)) if n.source.get(a..b) == Some(t.as_str()) => (),
                            l => bad(format!("its span {l:?} is not that of {t}")),
                        }
                    }
                    return "semantic error";
                }
                _ => (),
            }
        }
        bad("no reachable file has such a defect".into());
        "?"
    }

    fn judge_span(&self, g: &str, name: &str, nth: usize, l: Option<(usize, usize)>, debug: &str, bad: &mut dyn FnMut(String)) {
        let Some(n) = self.nodes.get(g) else { return };
        if n.form != "source" {
            // a resolver that gives no source gives no span
            if l.is_some() && n.form != "source" {
                bad("a span without source".into());
            }
            return;
        }
        let at: Vec<(usize, usize)> = n.imports.iter().zip(&n.spans).filter(|(i, _)| i.0 == name).map(|x| *x.1).collect();
        match l {
            Some(sp) if at[nth.min(at.len() - 1)..].contains(&sp) => {
                let line = n.source[..sp.0].matches('\n').count() + 1;
                let begin = n.source[..sp.0].rfind('\n').map_or(0, |x| x + 1);
                let before = &n.source[begin..sp.0];
                // columns in bytes or in characters
                let want = [before.len(), before.chars().count()].map(|c| format!("{g}:{line}:{}: ", c + 1));
                if !want.iter().any(|w| debug.starts_with(w)) {
                    bad(format!("the debug form does not start with {}", want[0]));
                }
            }
            l => bad(format!("its span {l:?} marks {:?}, not the import", l.and_then(|(a, b)| n.source.get(a..b)))),
        }
    }

    fn show(&self, ops: &[Op]) -> String {
        let mut s = format!("operations: {ops:?}\n");
        if self.bare {
            s += "no well-known files\n";
        }
        for (n, x) in &self.nodes {
            let _ = write!(s, "==== {n} ({}, {:?})\n{}", x.form, x.flaw, x.source);
        }
        s
    }

    /// What the compiler shows, against what is loaded.
    fn observe(&self, k: &Compiler, loaded: &BTreeMap<String, bool>, imports: bool, info: bool, out: &mut Vec<Diff>) {
        let set = sut(|| k.file_descriptor_set());
        let d = deps(&set);
        let names: Vec<&str> = d.iter().map(|x| x.0.as_str()).collect();
        let want: BTreeSet<&str> = loaded.iter().filter(|x| imports || !x.1).map(|x| x.0.as_str()).collect();
        let got: BTreeSet<&str> = names.iter().copied().collect();
        if got != want || names.len() != got.len() {
            out.push(diff(Facet::Graph, format!("the set holds {names:?}, not {want:?}")));
        }
        if imports {
            if let Err(e) = topological(&d) {
                out.push(diff(Facet::Graph, format!("order: {e}")));
            }
        } else {
            // those that are there are in order
            let mut seen = BTreeSet::new();
            for (n, ds) in d.iter() {
                seen.insert(n.as_str());
                for x in ds {
                    if got.contains(x.as_str()) && !seen.contains(x.as_str()) {
                        out.push(diff(Facet::Graph, format!("{n} comes before its import {x}")));
                    }
                }
            }
        }
        let meta: Vec<(String, bool)> = sut(|| k.files().map(|f| (f.name().to_owned(), f.is_import())).collect());
        let m: BTreeMap<String, bool> = meta.iter().cloned().collect();
        if m != *loaded || meta.len() != m.len() {
            out.push(diff(Facet::Graph, format!("files() tells {meta:?}, not {loaded:?}")));
        }
        let md: Vec<(String, Vec<String>)> = meta.iter().map(|x| (x.0.clone(), self.imports(&x.0))).collect();
        if let Err(e) = topological(&md) {
            out.push(diff(Facet::Graph, format!("order of files(): {e}")));
        }
        for (n, p) in sut(|| k.files().map(|f| (f.name().to_owned(), f.path().map(|p| p.to_owned()))).collect::<Vec<_>>()) {
            let want = if is_wkt(&n) { None } else { self.holder(&n).map(|d| d.join(&n)) };
            if p != want {
                out.push(diff(Facet::Graph, format!("{n}: its path is {p:?}, not {want:?}")));
            }
        }
        let pool: BTreeSet<String> = sut(|| k.descriptor_pool().files().map(|f| f.name().to_owned()).collect());
        if !pool.iter().eq(loaded.keys()) {
            out.push(diff(Facet::Graph, format!("the pool holds {pool:?}")));
        }
        for f in &set.file {
            let Some(n) = self.nodes.get(f.name()) else { continue };
            let want: Vec<&str> = n.imports.iter().map(|i| i.0.as_str()).collect();
            let idx = |k: &str| -> Vec<i32> { n.imports.iter().enumerate().filter(|i| i.1 .1 == k).map(|i| i.0 as i32).collect() };
            if f.dependency != want || f.public_dependency != idx("public") || f.weak_dependency != idx("weak") {
                out.push(diff(Facet::Graph, format!("{}: imports {:?} {:?} {:?}", f.name(), f.dependency, f.public_dependency, f.weak_dependency)));
            }
            if f.message_type.len() != 1 || f.message_type[0].name() != n.message {
                out.push(diff(Facet::Graph, format!("{}: holds {:?}", f.name(), f.message_type.iter().map(|m| m.name()).collect::<Vec<_>>())));
            } else {
                // types resolve into the files imported, in their order
                let types: Vec<String> = f.message_type[0].field.iter().map(|x| x.type_name().to_owned()).collect();
                let want: Vec<String> = n
                    .imports
                    .iter()
                    .filter_map(|i| match self.nodes.get(&i.0) {
                        Some(t) => Some(format!(".p{}.{}", &t.message[1..], t.message)),
                        None if i.0 == "google/protobuf/any.proto" => Some(".google.protobuf.Any".into()),
                        None => None,
                    })
                    .collect();
                if types != want {
                    out.push(diff(Facet::Graph, format!("{}: types {types:?}, not {want:?}", f.name())));
                }
            }
            let has = f.source_code_info.is_some();
            let should = info && n.form != "bare proto";
            if has != should {
                out.push(diff(Facet::Output, format!("{}: source info is there: {has}, asked for: {should}", f.name())));
            }
        }
    }
}

pub fn graph(env: &Env, stream: &str, i: u64, cfg: &GraphCfg) -> Case {
    let mut r = rng(env, stream, i);
    let mut g = Graph::generate(&mut r, cfg);
    let dir = cfg.disk.then(|| Scratch::new(env, stream, i));
    if let Some(dir) = &dir {
        g.write(dir);
    }
    let names: Vec<String> = g.nodes.keys().cloned().collect();
    let mut ops = vec![];
    let one = |r: &mut Rng| -> String {
        if r.one_in(12) && cfg.missing > 0 {
            (*r.pick(&["nowhere.proto", "no0.proto"])).to_owned()
        } else if r.one_in(12) {
            r.pick(WKT).to_string()
        } else {
            let n = if cfg.large && r.one_in(2) { g.top.clone() } else { r.pick(&names).clone() };
            g.spell(r, &n)
        }
    };
    for _ in 0..r.range(cfg.ops.0, cfg.ops.1) {
        ops.push(match r.below(8) {
            0 => Op::OpenMany((0..r.below(4)).map(|_| one(&mut r)).collect()),
            1 => Op::Imports(r.one_in(2)),
            2 => Op::Info(r.one_in(2)),
            _ => Op::Open(one(&mut r)),
        });
    }
    let mut c = Case::new(g.show(&ops));
    about_to_try(&c.input);
    let mem = g.mem();
    let chain = mem.chain();
    let mut k = Compiler::with_file_resolver(chain);
    let (mut imports, mut info) = (false, false);
    let mut loaded: BTreeMap<String, bool> = BTreeMap::new();
    let mut done: Vec<String> = vec![];
    let mut out = vec![];
    let mut shape = fnv(format!("{:?}", g.nodes.values().map(|n| (n.imports.len(), format!("{:?}", n.flaw).len())).collect::<Vec<_>>()).as_bytes());
    for op in &ops {
        let many: Vec<String> = match op {
            Op::Imports(b) => {
                imports = *b;
                k.include_imports(*b);
                vec![]
            }
            Op::Info(b) => {
                info = *b;
                k.include_source_info(*b);
                vec![]
            }
            Op::Open(f) => vec![f.clone()],
            Op::OpenMany(fs) => fs.clone(),
        };
        mem.take_log();
        let before_all = loaded.clone();
        // which of them are expected to open
        let mut err = None;
        match op {
            Op::Open(f) => err = sut(|| k.open_file(f).err()).map(|e| (f.clone(), e)),
            Op::OpenMany(fs) => {
                let mut l = loaded.clone();
                let bad = fs.iter().find(|f| {
                    let f = &g.plain(f);
                    if g.must_fail(f, &l) {
                        return true;
                    }
                    for x in g.reach(f, &l) {
                        l.insert(x, true);
                    }
                    false
                });
                err = sut(|| k.open_files(fs).err()).map(|e| (bad.cloned().unwrap_or_default(), e));
            }
            _ => (),
        }
        let mut failed = None;
        for path in &many {
            let f = &g.plain(path);
            if g.must_fail(f, &loaded) {
                failed = Some((path.clone(), f.clone()));
                break;
            }
            for x in g.reach(f, &loaded) {
                loaded.insert(x, true);
            }
            loaded.insert(f.clone(), false);
            done.push(f.clone());
        }
        let log = mem.take_log();
        let asked: BTreeSet<&String> = log.iter().collect();
        match (&failed, &err) {
            (None, None) => {
                if !many.is_empty() {
                    c.stat("successful opens", many.len());
                    let new: BTreeSet<&String> = loaded.keys().filter(|x| !before_all.contains_key(*x) && !(cfg.disk && is_wkt(x))).collect();
                    if asked != new || asked.len() != log.len() {
                        out.push(diff(Facet::Graph, format!("{op:?}: files read {log:?}, new files {new:?}")));
                    }
                    c.stat("files read", log.len());
                }
            }
            (Some((f, _)), None) => out.push(diff(Facet::Error, format!("{op:?}: {f:?} must not open, and did"))),
            (None, Some((_, e))) => out.push(diff(Facet::Graph, format!("{op:?}: failed with {e:?}"))),
            (Some((path, f)), Some((_, e))) => {
                let kind = g.judge_error(path, f, &loaded, e, &mut out);
                c.stat(format!("errors: {kind}"), 1);
                shape ^= fnv(kind.as_bytes()).rotate_left(c.stats.len() as u32);
                if asked.len() != log.len() {
                    out.push(diff(Facet::Graph, format!("{op:?}: files read more than once: {log:?}")));
                }
                // what may be left of it: whole files, as imports, with all they import
                let reach = g.reach(f, &loaded);
                let now: Vec<(String, bool)> = sut(|| k.files().map(|f| (f.name().to_owned(), f.is_import())).collect());
                for (n, im) in now {
                    if loaded.contains_key(&n) {
                        continue;
                    }
                    if !im || !reach.contains(&n) || n == *f {
                        out.push(diff(Facet::History, format!("{op:?} failed, and left {n} (import: {im})")));
                    }
                    loaded.insert(n, true);
                }
                for n in loaded.keys() {
                    for d in g.imports(n) {
                        if !loaded.contains_key(&d) {
                            out.push(diff(Facet::History, format!("{op:?} failed, and left {n} without its import {d}")));
                        }
                    }
                }
                c.stat("failed opens", 1);
            }
        }
        g.observe(&k, &loaded, imports, info, &mut out);
        c.stat("states compared", 1);
        if !out.is_empty() {
            break;
        }
    }
    // as if only the successful opens had happened
    if out.is_empty() {
        let mut fresh = Compiler::with_file_resolver(mem.chain());
        let e = sut(|| fresh.open_files(&done).err());
        if let Some(e) = e {
            out.push(diff(Facet::History, format!("a fresh compiler does not open {done:?}: {e:?}")));
        } else {
            for info in [false, true] {
                k.include_imports(false).include_source_info(info);
                fresh.include_imports(false).include_source_info(info);
                let key = |k: &Compiler| -> BTreeMap<String, Vec<u8>> {
                    sut(|| k.file_descriptor_set())
                        .file
                        .iter()
                        .map(|f| (f.name().to_owned(), f.encode_to_vec()))
                        .collect()
                };
                let (a, b) = (key(&k), key(&fresh));
                if a != b {
                    let d: Vec<_> = a.keys().chain(b.keys()).filter(|x| a.get(*x) != b.get(*x)).collect();
                    out.push(diff(Facet::History, format!("differs from a fresh compiler in {d:?}")));
                }
                k.include_imports(true);
                fresh.include_imports(true);
                let (a, b) = (key(&k), key(&fresh));
                for (n, t) in &b {
                    if a.get(n) != Some(t) {
                        out.push(diff(Facet::History, format!("with imports, differs from a fresh compiler in {n}")));
                    }
                }
            }
        }
    }
    c.stat("longest import chain (sum)", longest(&g));
    c.nontrivial = Some(shape ^ fnv(c.input.as_bytes()));
    c.diffs = out;
    c
}

fn longest(g: &Graph) -> usize {
    fn go(g: &Graph, n: &str, seen: &mut Vec<String>) -> usize {
        if seen.len() > 12 || seen.iter().any(|s| s == n) {
            return 0;
        }
        seen.push(n.to_owned());
        let d = g.imports(n).iter().take(2).map(|i| go(g, i, seen)).max().unwrap_or(0);
        seen.pop();
        d + 1
    }
    g.nodes.keys().next().map_or(0, |n| go(g, n, &mut vec![]))
}

const VALID: GraphCfg = GraphCfg {
    files: (2, 9),
    density: 35,
    cycles: 0,
    missing: 0,
    dup: 0,
    flaws: 0,
    ops: (1, 6),
    forms: true,
    large: false,
    disk: false,
};
pub fn valid(env: &Env, i: u64) -> Case {
    graph(env, "valid", i, &VALID)
}
pub fn dense(env: &Env, i: u64) -> Case {
    graph(
        env,
        "dense",
        i,
        &GraphCfg {
            files: (6, 14),
            density: 70,
            forms: false,
            ..VALID
        },
    )
}
pub fn errors(env: &Env, i: u64) -> Case {
    graph(
        env,
        "errors",
        i,
        &GraphCfg {
            cycles: 25,
            missing: 12,
            dup: 12,
            flaws: 10,
            ops: (1, 2),
            ..VALID
        },
    )
}
pub fn cycles(env: &Env, i: u64) -> Case {
    graph(
        env,
        "cycles",
        i,
        &GraphCfg {
            cycles: 45,
            ops: (1, 3),
            ..VALID
        },
    )
}
pub fn imports(env: &Env, i: u64) -> Case {
    graph(
        env,
        "imports",
        i,
        &GraphCfg {
            missing: 20,
            dup: 20,
            ops: (1, 3),
            ..VALID
        },
    )
}
pub fn histories(env: &Env, i: u64) -> Case {
    graph(
        env,
        "histories",
        i,
        &GraphCfg {
            cycles: 10,
            missing: 8,
            dup: 6,
            flaws: 12,
            ops: (4, 14),
            ..VALID
        },
    )
}

/// Graphs of very many files: all the same must hold.
pub fn large(env: &Env, i: u64) -> Case {
    let r = &mut rng(env, "large or not", i);
    let n = *r.pick(&[40, 70, 130, 140, 260, 300]);
    let flawed = env.id == "C17" || r.one_in(3);
    let mut c = graph(
        env,
        "large",
        i,
        &GraphCfg {
            files: (n, n + 12),
            cycles: if flawed { 60 } else { 0 },
            missing: if flawed { 20 } else { 0 },
            dup: if flawed { 20 } else { 0 },
            flaws: if flawed { 20 } else { 0 },
            ops: (2, 5),
            large: true,
            ..VALID
        },
    );
    c.stat("large graphs", 1);
    c
}

/// The same of files on disk.
pub fn disk(env: &Env, i: u64) -> Case {
    let flawed = env.id == "C17" || i % 3 == 0;
    let pct = |p| if flawed { p } else { 0 };
    let mut c = graph(
        env,
        "disk",
        i,
        &GraphCfg {
            cycles: pct(12),
            missing: pct(8),
            dup: pct(6),
            flaws: pct(12),
            ops: (2, 12),
            forms: false,
            disk: true,
            ..VALID
        },
    );
    c.stat("graphs on disk", 1);
    c
}

/// A chain of imports, long but not endless, open from either end.
pub fn chain(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "chain", i);
    let n = *r.pick(&[50, 120, 250]);
    let back = r.one_in(3);
    let mut files = BTreeMap::new();
    for k in 0..n {
        let mut s = String::from("syntax = 'proto3';\n");
        if k > 0 {
            let _ = writeln!(s, "import 'f{}.proto';", k - 1);
        } else if back {
            let _ = writeln!(s, "import 'f{}.proto';", n / 2);
        }
        let _ = writeln!(s, "message M{k} {{ }}");
        files.insert(format!("f{k}.proto"), Entry::Source(s));
    }
    let mem = Mem {
        files: Arc::new(files),
        ..Mem::default()
    };
    let mut c = Case::new(format!("a chain of {n} files, f{}.proto importing the next{}", n - 1, if back { ", and the last one in the middle" } else { "" }));
    about_to_try(&c.input);
    let mut k = Compiler::with_file_resolver(mem.chain());
    k.include_imports(true);
    let e = sut(|| k.open_file(format!("f{}.proto", n - 1)).err());
    match (back, e) {
        (false, None) => {
            let set = sut(|| k.file_descriptor_set());
            if set.file.len() != n {
                c.diffs.push(diff(Facet::Graph, format!("{} files of {n}", set.file.len())));
            }
            if let Err(e) = topological(&deps(&set)) {
                c.diffs.push(diff(Facet::Graph, e));
            }
        }
        (true, Some(e)) if e.to_string().starts_with("import cycle detected") => (),
        (_, e) => c.diffs.push(diff(Facet::Graph, format!("outcome {e:?}"))),
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

/// A semantic error on a line with other characters than ASCII before it: once seen to be misplaced.
pub fn semantic_fixed(_env: &Env, i: u64) -> Case {
    let _ = i;
    let src = "syntax = \"proto2\";\nmessage M {\n  /* \u{e9}\u{e9} */ optional Nowhere x = 1;\n}\n";
    let mut c = Case::new(src.to_owned());
    about_to_try(src);
    let mem = Mem {
        files: Arc::new([("a.proto".to_owned(), Entry::Source(src.to_owned()))].into_iter().collect()),
        ..Mem::default()
    };
    let e = sut(|| Compiler::with_file_resolver(mem).open_file("a.proto").err());
    match e {
        None => c.diffs.push(diff(Facet::Error, "an unknown type is accepted")),
        Some(e) => {
            let at = src.find("Nowhere").unwrap();
            let l = sut(|| e.labels().and_then(|mut l| l.next()).map(|l| (l.offset(), l.len())));
            if l != Some((at, 7)) {
                c.diffs.push(diff(Facet::Error, format!("[semantic error after non-ASCII text on its line] its span is {l:?}, not {:?}", (at, 7))));
            }
        }
    }
    c.nontrivial = Some(fnv(src.as_bytes()));
    c
}
