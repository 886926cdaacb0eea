//! Growth of time and memory with the input (C15).
use crate::checks_compile::Entry;
use crate::checks_compile::Mem;
use crate::checks_parse::{self as cp, rng};
use crate::cmp::{diff, Facet};
use crate::drive::*;
use crate::gen;
use crate::lex;
use crate::rng::{fnv, Rng};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, FileResolver, GoogleFileResolver};
use protox::{Compiler, Error};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;

// ---- what an execution allocates, by thread

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn took(n: usize) {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    live(n as i64);
}
fn live(n: i64) {
    let _ = LIVE.try_with(|c| {
        c.set(c.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(c.get())));
    });
}

// Large blocks come in sizes of powers of two and, if this is on, are kept for the next execution on
// the thread: otherwise the kernel's work to map them again, which starts at some size, would pass
// for growth of the code under test.
pub static KEEP: AtomicBool = AtomicBool::new(false);
const LARGE: usize = 32 << 10;
const SHELF: usize = 6;
thread_local! {
    static SHELVES: Cell<[[*mut u8; SHELF]; 40]> = const { Cell::new([[std::ptr::null_mut(); SHELF]; 40]) };
}

fn rounded(l: Layout) -> Layout {
    if l.size() < LARGE || l.align() > 16 {
        return l;
    }
    // SAFETY: the alignment is that of a valid layout; sizes are far below the limit
    unsafe { Layout::from_size_align_unchecked(l.size().next_power_of_two(), 16) }
}
fn shelf(l: Layout) -> Option<usize> {
    let k = l.size().trailing_zeros() as usize;
    (l.size() >= LARGE && l.align() <= 16 && k < 40 && KEEP.load(Relaxed)).then_some(k)
}

/// SAFETY: as `GlobalAlloc::alloc`, of a rounded layout
unsafe fn get(l: Layout) -> *mut u8 {
    if let Some(k) = shelf(l) {
        let p = SHELVES
            .try_with(|s| {
                let mut v = s.get();
                let p = v[k].iter_mut().find(|p| !p.is_null()).map_or(std::ptr::null_mut(), |p| std::mem::replace(p, std::ptr::null_mut()));
                s.set(v);
                p
            })
            .unwrap_or(std::ptr::null_mut());
        if !p.is_null() {
            return p;
        }
    }
    System.alloc(l)
}
/// SAFETY: as `GlobalAlloc::dealloc`, of a rounded layout
unsafe fn put(p: *mut u8, l: Layout) {
    if let Some(k) = shelf(l) {
        let kept = SHELVES.try_with(|s| {
            let mut v = s.get();
            let free = v[k].iter_mut().find(|p| p.is_null());
            let kept = free.map(|x| *x = p).is_some();
            s.set(v);
            kept
        });
        if kept == Ok(true) {
            return;
        }
    }
    System.dealloc(p, l)
}

// SAFETY: everything comes from the system allocator, with layouts rounded in the same way each time
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        get(rounded(l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        let r = rounded(l);
        if shelf(r).is_none() {
            return System.alloc_zeroed(r);
        }
        let p = get(r);
        if !p.is_null() {
            p.write_bytes(0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        put(p, rounded(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        live(-(l.size() as i64));
        took(n);
        let (a, b) = (rounded(l), rounded(Layout::from_size_align_unchecked(n, l.align())));
        if a == b {
            return p;
        }
        if shelf(a).is_none() && shelf(b).is_none() {
            return System.realloc(p, a, b.size());
        }
        let q = get(b);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            put(p, a);
        }
        q
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cost {
    ns: u64,
    count: u64,
    bytes: u64,
    peak: u64,
}

fn cpu_ns() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain call with a valid pointer
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// The outcome and its cost.
pub fn cost(f: &dyn Fn() -> bool) -> (bool, Cost) {
    COUNT.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    let live0 = LIVE.with(|c| c.get());
    PEAK.with(|c| c.set(live0));
    let t = cpu_ns();
    let ok = sut(f);
    let ns = cpu_ns() - t;
    let c = Cost {
        ns,
        count: COUNT.with(|c| c.get()),
        bytes: BYTES.with(|c| c.get()),
        peak: (PEAK.with(|c| c.get()) - live0).max(0) as u64,
    };
    (ok, c)
}

// ---- inputs

pub enum Input {
    Parse(String),
    Compile(BTreeMap<String, Entry>, Vec<String>, usize),
    Set(Vec<u8>, Vec<String>),
}

impl Input {
    fn files(files: Vec<(String, String)>, roots: &[&str]) -> Input {
        let n = files.iter().map(|f| f.0.len() + f.1.len()).sum();
        Input::Compile(
            files.into_iter().map(|(n, t)| (n, Entry::Source(t))).collect(),
            roots.iter().map(|r| (*r).to_owned()).collect(),
            n,
        )
    }
    fn one(text: String) -> Input {
        Input::files(vec![("a.proto".into(), text)], &["a.proto"])
    }
    fn size(&self) -> usize {
        match self {
            Input::Parse(t) => t.len(),
            Input::Compile(_, _, n) => *n,
            Input::Set(b, _) => b.len(),
        }
    }
    fn show(&self) -> String {
        let cut = |s: &str| s.chars().take(300).collect::<String>();
        match self {
            Input::Parse(t) => format!("parse {} bytes: {}...", t.len(), cut(t)),
            Input::Compile(f, r, n) => {
                let t = f.get(&r[0]).map_or(String::new(), |e| if let Entry::Source(s) = e { cut(s) } else { String::new() });
                format!("compile {} files, {n} bytes, {}: {t}...", f.len(), r[0])
            }
            Input::Set(b, r) => format!("descriptor set of {} bytes, {} roots", b.len(), r.len()),
        }
    }
    fn runner(&self) -> Box<dyn Fn() -> bool + '_> {
        match self {
            Input::Parse(t) => Box::new(move || match protox_parse::parse("a.proto", t) {
                Ok(_) => true,
                Err(e) => {
                    let _ = e.to_string();
                    false
                }
            }),
            Input::Compile(files, roots, _) => {
                let files = Arc::new(copy(files));
                Box::new(move || {
                    let mem = Mem {
                        files: files.clone(),
                        ..Mem::default()
                    };
                    compile(mem, roots).is_ok()
                })
            }
            Input::Set(b, roots) => Box::new(move || match DescriptorSetFileResolver::decode(b.as_slice()) {
                Ok(r) => compile(r, roots).is_ok(),
                Err(_) => false,
            }),
        }
    }
}

fn copy(f: &BTreeMap<String, Entry>) -> BTreeMap<String, Entry> {
    f.iter()
        .map(|(k, e)| match e {
            Entry::Source(s) => (k.clone(), Entry::Source(s.clone())),
            _ => unreachable!(),
        })
        .collect()
}

fn compile(res: impl FileResolver + 'static, roots: &[String]) -> Result<(), Error> {
    let mut c = ChainFileResolver::new();
    c.add(res);
    c.add(GoogleFileResolver::new());
    let mut k = Compiler::with_file_resolver(c);
    k.include_imports(true).include_source_info(true);
    for r in roots {
        k.open_file(r)?;
    }
    let _ = k.file_descriptor_set();
    let _ = k.encode_file_descriptor_set();
    Ok(())
}

// ---- families

pub struct Family {
    pub name: &'static str,
    /// Repetitions in the small input.
    base: usize,
    make: fn(usize) -> Input,
    /// How much larger the large input is, if not as usual.
    factor: usize,
}

fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        s += &f(i);
    }
    s
}
fn p(s: String) -> Input {
    Input::Parse(s)
}
const F: usize = 64;
macro_rules! fam {
    ($name:expr, $base:expr, $make:expr) => {
        Family { name: $name, base: $base, make: $make, factor: F }
    };
    ($name:expr, $base:expr, $make:expr, $factor:expr) => {
        Family { name: $name, base: $base, make: $make, factor: $factor }
    };
}

fn set_of(files: Vec<(String, String)>, roots: &[&str]) -> Input {
    let mem = Mem {
        files: Arc::new(files.into_iter().map(|(n, t)| (n, Entry::Source(t))).collect()),
        ..Mem::default()
    };
    let b = sut(|| {
        let mut k = Compiler::with_file_resolver(mem.chain());
        k.include_imports(true).include_source_info(true);
        for r in roots {
            k.open_file(r).unwrap();
        }
        k.encode_file_descriptor_set()
    });
    Input::Set(b, roots.iter().map(|r| (*r).to_owned()).collect())
}

fn star(n: usize, public: bool) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = (0..n).map(|i| (format!("f{i}.proto"), format!("syntax = \"proto3\"; message M{i} {{ }}"))).collect();
    let imp = if public { "import public" } else { "import" };
    v.push(("r.proto".into(), rep(n, |i| format!("{imp} \"f{i}.proto\";\n")) + &rep(n, |i| format!("message R{i} {{ optional M{i} m = 1; }}\n"))));
    v
}
/// Empty files of long names, which one file imports.
fn empties(n: usize) -> Vec<(String, String)> {
    let name = |i| format!("a/rather/long/common/directory/for/very/many/files/{i:06}.proto");
    let mut v: Vec<(String, String)> = (0..n).map(|i| (name(i), String::new())).collect();
    v.push(("r.proto".into(), rep(n, |i| format!("import '{}';\n", name(i)))));
    v
}
fn chain(n: usize, public: bool) -> Vec<(String, String)> {
    let imp = if public { "import public" } else { "import" };
    (0..n)
        .map(|i| {
            let next = if i + 1 < n { format!("{imp} \"f{}.proto\"; message M{i} {{ M{} m = 1; }}", i + 1, i + 1) } else { format!("message M{i} {{ }}") };
            (format!("f{i}.proto"), format!("syntax = \"proto3\"; {next}"))
        })
        .collect()
}
/// Layers of eight files, each of which imports all of the next layer.
fn layers(n: usize) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in 0..n {
        for k in 0..8 {
            let imports = if l + 1 < n { rep(8, |j| format!("import \"l{}x{j}.proto\"; ", l + 1)) } else { String::new() };
            v.push((format!("l{l}x{k}.proto"), format!("syntax = \"proto3\"; {imports} message L{l}x{k} {{ }}")));
        }
    }
    v
}

pub fn families() -> Vec<Family> {
    vec![
        fam!("empty messages", 400, |n| p(rep(n, |i| format!("message M{i} {{ }}\n")))),
        fam!("fields", 300, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("optional int32 f{i} = {};\n", i % 10000 + 1))))),
        fam!("fields of message types", 300, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("repeated .a.b.C f{i} = {};\n", i % 10000 + 1))))),
        fam!("proto3 optional fields", 300, |n| p(format!("syntax = 'proto3'; message M {{ {} }}", rep(n, |i| format!("optional int32 f{i} = {};\n", i % 10000 + 1))))),
        fam!("proto3 optional fields of the same name", 300, |n| p(format!("syntax = 'proto3'; message M {{ {} }}", rep(n, |_| "optional int32 f = 1;\n".into())))),
        fam!("proto3 optional fields with prefixed names", 100, |n| p(format!("syntax = 'proto3'; message M {{ optional int32 f = 1; {} }}", rep(n, |i| format!("optional int32 {}f = 1;\n", "X".repeat(i % 50)))))),
        fam!("fields in oneof", 300, |n| p(format!("message M {{ oneof o {{ {} }} }}", rep(n, |i| format!("int32 f{i} = {};\n", i % 10000 + 1))))),
        fam!("oneofs", 200, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("oneof o{i} {{ int32 f{i} = {}; }}\n", i % 10000 + 1))))),
        fam!("groups", 200, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("optional group G{i} = {} {{ }}\n", i % 10000 + 1))))),
        fam!("groups in a oneof", 200, |n| p(format!("message M {{ oneof o {{ {} }} }}", rep(n, |i| format!("group G{i} = {} {{ }}\n", i % 10000 + 1))))),
        fam!("map fields", 200, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("map<int32, string> f{i} = {};\n", i % 10000 + 1))))),
        fam!("fields on one line", 300, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("optional int32 f{i} = {}; ", i % 10000 + 1))))),
        fam!("fields on one line after other characters", 300, |n| p(format!("message M {{ /* \u{e9}\u{4e16} */ {} }}", rep(n, |i| format!("optional int32 f{i} = {}; /* \u{e9} */", i % 10000 + 1))))),
        fam!("fields with default", 200, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("optional string f{i} = {} [default = \"abc\", json_name = 'x{i}'];\n", i % 10000 + 1))))),
        fam!("nested messages", 20, |n| p(rep(n, |i| format!("{} {}", rep(25, |d| format!("message M{i}x{d} {{ ")), "}".repeat(25))))),
        fam!("messages in a message", 400, |n| p(format!("message A {{ {} }}", rep(n, |i| format!("message M{i} {{ }}\n"))))),
        fam!("enums in a message", 300, |n| p(format!("message A {{ {} }}", rep(n, |i| format!("enum E{i} {{ A{i} = 0; }}\n"))))),
        fam!("enum values", 400, |n| p(format!("enum E {{ {} }}", rep(n, |i| format!("V{i} = {i};\n"))))),
        fam!("enum values with options", 300, |n| p(format!("enum E {{ {} }}", rep(n, |i| format!("V{i} = -{i} [deprecated = true];\n"))))),
        fam!("enum reservations", 500, |n| p(format!("enum E {{ reserved {}; }}", (0..n).map(|i| format!("{} to {}", 2 * i, 2 * i)).collect::<Vec<_>>().join(", ")))),
        fam!("reserved statements", 400, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("reserved {};\n", i % 10000 + 1))))),
        fam!("reserved ranges", 500, |n| p(format!("message M {{ reserved {}; }}", (0..n).map(|i| format!("{} to {}", 2 * i + 1, 2 * i + 2)).collect::<Vec<_>>().join(", ")))),
        fam!("reserved names", 800, |n| p(format!("message M {{ reserved {}; }}", (0..n).map(|i| format!("\"n{i}\"")).collect::<Vec<_>>().join(", ")))),
        fam!("extension ranges", 500, |n| p(format!("message M {{ extensions {} [deprecated = true]; }}", (0..n).map(|i| (2 * i + 1).to_string()).collect::<Vec<_>>().join(", "))), 16),
        fam!("extension ranges without options", 500, |n| p(format!("message M {{ extensions {}; }}", (0..n).map(|i| (2 * i + 1).to_string()).collect::<Vec<_>>().join(", ")))),
        fam!("extends", 200, |n| p(rep(n, |i| format!("extend A {{ optional int32 e{i} = {}; }}\n", i % 10000 + 1)))),
        fam!("extensions in a block", 300, |n| p(format!("extend A {{ {} }}", rep(n, |i| format!("optional int32 e{i} = {};\n", i % 10000 + 1))))),
        fam!("extends in a message", 200, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("extend A {{ optional group E{i} = {} {{ }} }}\n", i % 10000 + 1))))),
        fam!("services", 300, |n| p(rep(n, |i| format!("service S{i} {{ }}\n")))),
        fam!("methods", 200, |n| p(format!("service S {{ {} }}", rep(n, |i| format!("rpc M{i}(stream a.b.C) returns (.D);\n"))))),
        fam!("methods with bodies", 200, |n| p(format!("service S {{ {} }}", rep(n, |i| format!("rpc M{i}(a.b.C) returns (.D) {{ option deprecated = true; }}\n"))))),
        fam!("imports", 400, |n| p(rep(n, |i| format!("import \"a{i}.proto\";\n")))),
        fam!("imports of all kinds", 400, |n| p(rep(n, |i| format!("import {}\"dir/a{i}.proto\";\n", ["public ", "weak ", ""][i % 3])))),
        fam!("imports of long names", 4, |n| p(rep(n, |i| format!("import \"{}{i}.proto\";\n", "d/".repeat(1000))))),
        fam!("an import of a long name", 4000, |n| p(format!("import \"{}a.proto\";\n", "d/".repeat(n)))),
        fam!("file options", 300, |n| p(rep(n, |i| format!("option (o{i}) = {i};\n")))),
        fam!("message options", 300, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("option (o{i}).a.b = \"x\";\n"))))),
        fam!("options in brackets", 300, |n| p(format!("message M {{ optional int32 a = 1 [ {} ]; }}", (0..n).map(|i| format!("(o{i}) = {i}")).collect::<Vec<_>>().join(",\n")))),
        fam!("a long option name", 2000, |n| p(format!("option a{} = 1;", ".b".repeat(n)))),
        fam!("a long option name in parentheses", 2000, |n| p(format!("option (a{}) = 1;", ".b".repeat(n)))),
        fam!("an option name of many extensions", 2000, |n| p(format!("option (a){} = 1;", ".(b)".repeat(n)))),
        fam!("a flat aggregate", 800, |n| p(format!("option (a) = {{ {} }};", rep(n, |i| format!("f{i}: {i}\n"))))),
        fam!("a flat aggregate on one line", 800, |n| p(format!("option (a) = {{ {} }};", rep(n, |i| format!("f{i}: {i}, "))))),
        fam!("a list in an aggregate", 1500, |n| p(format!("option (a) = {{ l: [ {} ] }};", vec!["1"; n].join(", ")))),
        fam!("messages in an aggregate", 600, |n| p(format!("option (a) = {{ {} }};", rep(n, |_| "m { a: 1 } n < b: 'x' >\n".into())))),
        fam!("nested aggregates", 20, |n| p(rep(n, |i| format!("option (o{i}) = {{ {} {} }};\n", "a { ".repeat(60), "} ".repeat(60))))),
        fam!("a deep aggregate", 100, |n| p(format!("option (o) = {{ {} {} }};\n", "a { ".repeat(n), "} ".repeat(n))), 8),
        fam!("lists in lists of an aggregate", 300, |n| p(format!("option (o) = {{ {} }};\n", rep(n, |_| "a: [ { b: [ 1, 2 ] }, { } ] ".into())))),
        fam!("comments in an aggregate", 600, |n| p(format!("option (a) = {{ {} }};", rep(n, |i| format!("f{i}: {i} # comment\n /* c */ // d\n"))))),
        fam!("any in an aggregate", 300, |n| p(format!("option (a) = {{ {} }};", rep(n, |_| "[a.b/c.d] { x: 1 }\n".into())))),
        fam!("line comments before one declaration", 800, |n| p(rep(n, |i| format!("// comment {i}\n")) + "message M { }")),
        fam!("detached comments", 600, |n| p(rep(n, |i| format!("// comment {i}\n\n")) + "message M { }")),
        fam!("detached block comments", 600, |n| p(rep(n, |i| format!("/* comment {i} */\n\n")) + "message M { }")),
        fam!("block comments on one line", 800, |n| p(rep(n, |i| format!("/* c{i} */ ")) + "message M { }")),
        fam!("a long block comment", 1000, |n| p(format!("/* {} */ message M {{ }}", rep(n, |_| "some text *\n".into())))),
        fam!("a long block comment with stars", 1000, |n| p(format!("/* {} */ message M {{ }}", rep(n, |_| "   * some text\n".into())))),
        fam!("a block comment of one line", 1000, |n| p(format!("/* {} */ message M {{ }}", rep(n, |_| "some text ".into())))),
        fam!("a block comment of stars", 10000, |n| p(format!("/* {} */ message M {{ }}", "*".repeat(n)))),
        fam!("a block comment of slashes", 10000, |n| p(format!("/* {} */ message M {{ }}", "/".repeat(n)))),
        fam!("a block comment of blank lines", 10000, |n| p(format!("/*{}*/ message M {{ }}", "\n".repeat(n)))),
        fam!("a block comment of indentation", 10000, |n| p(format!("/*{}*/ message M {{ }}", " ".repeat(n)))),
        fam!("an unterminated block comment", 1000, |n| p(format!("message M {{ }} /* {}", rep(n, |_| "some text\n".into())))),
        fam!("unterminated block comments in each other", 20000, |n| p("/*".repeat(n)), 16),
        fam!("a long line comment", 10000, |n| p(format!("// {}\nmessage M {{ }}", "x".repeat(n)))),
        fam!("comments on every field", 200, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("// detached\n\n// leading {i}\noptional int32 f{i} = {}; // trailing\n", i % 10000 + 1))))),
        fam!("trailing comments", 200, |n| p(rep(n, |i| format!("message M{i} {{ // trailing\n}} /* trailing\n too */\n")))),
        fam!("comments within declarations", 200, |n| p(rep(n, |i| format!("message /* a */ M{i} // b\n {{ /* c */ }}\n")))),
        fam!("comments at the end", 800, |n| p("message M { }\n".to_owned() + &rep(n, |i| format!("// c{i}\n\n")))),
        fam!("comments at the end of a block", 800, |n| p("message M {\n".to_owned() + &rep(n, |i| format!("// c{i}\n\n")) + "}")),
        fam!("comments before semicolons", 800, |n| p(rep(n, |i| format!("// c{i}\n;\n")))),
        fam!("carriage returns", 400, |n| p(rep(n, |i| format!("// c\r\nmessage M{i} {{ }}\r\n")))),
        fam!("blank lines", 10000, |n| p("\n".repeat(n) + "message M { }")),
        fam!("spaces", 10000, |n| p(" ".repeat(n) + "message M { }")),
        fam!("tabs before fields", 200, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("{}optional int32 f{i} = {};\n", "\t".repeat(30), i % 10000 + 1))))),
        fam!("tabs on one line", 2000, |n| p(format!("message M {{ {} }}", rep(n, |_| "\t;\t".into())))),
        fam!("semicolons", 8000, |n| p(";".repeat(n))),
        fam!("semicolons in a message", 8000, |n| p(format!("message M {{ {} }}", ";".repeat(n)))),
        fam!("semicolons in a service", 8000, |n| p(format!("service M {{ rpc A(B) returns (C) {{ {} }} }}", ";".repeat(n)))),
        fam!("a long identifier", 10000, |n| p(format!("message {} {{ }}", "M".repeat(n)))),
        fam!("a long package", 4000, |n| p(format!("package a{};", ".b".repeat(n)))),
        fam!("a long package and messages", 400, |n| p(format!("package a{}; {}", ".b".repeat(n), rep(n, |i| format!("message M{i} {{ }}\n"))))),
        fam!("a long type name", 4000, |n| p(format!("message M {{ optional a{} f = 1; }}", ".b".repeat(n)))),
        fam!("a long string", 10000, |n| p(format!("option a = \"{}\";", "x".repeat(n)))),
        fam!("a long string of escapes", 3000, |n| p(format!("option a = \"{}\";", "\\n\\x41\\101".repeat(n)))),
        fam!("a long string of characters", 3000, |n| p(format!("option a = \"{}\";", "\u{4e16}\\u00e9".repeat(n)))),
        fam!("a long default of bytes", 3000, |n| p(format!("message M {{ optional bytes b = 1 [default = \"{}\"]; }}", "\\x80\\\\".repeat(n)))),
        fam!("strings in a row", 2000, |n| p(format!("option a = {};", rep(n, |_| "\"ab\" 'c'\n".into())))),
        fam!("a long decimal", 10000, |n| p(format!("option a = {};", "9".repeat(n)))),
        fam!("a long octal", 10000, |n| p(format!("option a = 0{};", "0".repeat(n)))),
        fam!("a long hexadecimal", 10000, |n| p(format!("option a = 0x{}1;", "0".repeat(n)))),
        fam!("a long float", 10000, |n| p(format!("option a = 1.{};", "3".repeat(n)))),
        fam!("a long exponent", 10000, |n| p(format!("option a = 1e{}1;", "0".repeat(n)))),
        fam!("a float of many digits in defaults", 100, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("optional double f{i} = {} [default = {}.5e-3];\n", i % 10000 + 1, "7".repeat(50)))))),
        fam!("many minus signs", 8000, |n| p(format!("option a = {} 1;", "-".repeat(n)))),
        fam!("wrong characters", 8000, |n| p("@".repeat(n))),
        fam!("wrong characters on lines", 4000, |n| p("\u{e9}\n".repeat(n))),
        fam!("wrong strings", 2000, |n| p(rep(n, |_| "option a = \"\\q\";\n".into()))),
        fam!("a string of wrong escapes", 8000, |n| p(format!("option a = \"{}\";", "\\q".repeat(n))), 16),
        fam!("unterminated strings", 2000, |n| p(rep(n, |_| "option a = \"x\n".into()))),
        fam!("wrong integers", 1000, |n| p(rep(n, |_| "option a = 99999999999999999999999;\n".into()))),
        fam!("wrong field numbers", 300, |n| p(format!("message M {{ {} }}", rep(n, |i| format!("optional int32 f{i} = 0;\n"))))),
        fam!("wrong statements", 500, |n| p(rep(n, |_| "message 1 { }\n".into()))),
        fam!("wrong statements in a message", 500, |n| p(format!("message M {{ {} }}", rep(n, |_| "optional int32 = 1;\n".into())))),
        fam!("wrong braces", 4000, |n| p("}\n".repeat(n))),
        fam!("wrong opening braces", 4000, |n| p("{ ".repeat(n))),
        fam!("wrong nesting", 4000, |n| p("message M { ".repeat(n))),
        fam!("repeated syntax", 500, |n| p(rep(n, |_| "syntax = 'proto3';\n".into()))),
        fam!("repeated packages", 500, |n| p(rep(n, |_| "package a;\n".into()))),
        fam!("one error at the end", 300, |n| p(format!("message M {{ {} }} message 1", rep(n, |i| format!("optional int32 f{i} = {};\n", i % 10000 + 1))))),
        fam!("repeated defaults", 500, |n| p(format!("message M {{ optional int32 a = 1 [ {} ]; }}", vec!["default = 1"; n].join(", ")))),
        fam!("parentheses", 4000, |n| p(format!("option {} = 1;", "(".repeat(n)))),
        // the compiler
        fam!("compile: messages", 100, |n| Input::one(rep(n, |i| format!("message M{i} {{ }}\n")))),
        fam!("compile: fields", 100, |n| Input::one(format!("message M {{ {} }}", rep(n, |i| format!("optional int32 f{i} = {};\n", i + 1))))),
        fam!("compile: fields of message types", 100, |n| Input::one(rep(n, |i| format!("message M{i} {{ optional M{i} f = 1; }}\n")))),
        fam!("compile: enum values", 150, |n| Input::one(format!("enum E {{ {} }}", rep(n, |i| format!("V{i} = {i};\n"))))),
        fam!("compile: methods", 100, |n| Input::one(format!("message A {{ }} service S {{ {} }}", rep(n, |i| format!("rpc M{i}(A) returns (A);\n"))))),
        fam!("compile: options", 60, |n| {
            Input::one(format!(
                "import 'google/protobuf/descriptor.proto'; message O {{ optional int32 a = 1; }} extend google.protobuf.MessageOptions {{ optional O o = 50000; }} {}",
                rep(n, |i| format!("message M{i} {{ option (o) = {{ a: {i} }}; }}\n"))
            ))
        }),
        fam!("compile: imports of one file", 30, |n| Input::files(star(n, false), &["r.proto"])),
        fam!("compile: public imports of one file", 30, |n| Input::files(star(n, true), &["r.proto"])),
        fam!("compile: very many imports of one file", 250, |n| Input::files(empties(n), &["r.proto"])),
        fam!("compile: very many imports of an import", 250, |n| {
            let mut f = empties(n);
            f.push(("s.proto".into(), "import 'r.proto';".into()));
            Input::files(f, &["s.proto"])
        }),
        fam!("compile: a chain of imports", 60, |n| Input::files(chain(n, false), &["f0.proto"])),
        fam!("compile: a chain of public imports", 60, |n| Input::files(chain(n, true), &["f0.proto"])),
        fam!("compile: layers", 4, |n| Input::files(layers(n), &["l0x0.proto"])),
        fam!("compile: many roots", 40, |n| {
            let f: Vec<(String, String)> = (0..n).map(|i| (format!("f{i}.proto"), format!("message M{i} {{ }}"))).collect();
            let r: Vec<String> = f.iter().map(|f| f.0.clone()).collect();
            Input::files(f, &r.iter().map(|s| s.as_str()).collect::<Vec<_>>())
        }),
        fam!("compile: one root many times", 400, |n| {
            let f = vec![("f.proto".to_owned(), "message M { }".repeat(1) + &"// a comment\n".repeat(n))];
            Input::files(f, &vec!["f.proto"; n])
        }),
        fam!("compile: an import that is missing", 100, |n| Input::files(vec![("a.proto".into(), rep(n, |i| format!("message M{i} {{ }}\n")) + "import 'x.proto';")], &["a.proto"])),
        fam!("compile: a long cycle", 60, |n| {
            let mut f = chain(n, false);
            f[n - 1].1 += "import 'f0.proto';";
            Input::files(f, &["f0.proto"])
        }),
        fam!("descriptors: messages", 100, |n| set_of(vec![("a.proto".into(), rep(n, |i| format!("message M{i} {{ }}\n")))], &["a.proto"])),
        fam!("descriptors: files", 30, |n| set_of(star(n, false), &["r.proto"]), 16),
    ]
}

// ---- judging

struct Limit {
    time: f64,
    memory: f64,
}

fn ratio(a: u64, b: u64, floor: u64) -> f64 {
    b as f64 / (a.max(floor)) as f64
}

/// Judges the growth from a small to a large input of the same kind.
fn judge(c: &mut Case, what: &str, small: &Input, large: &Input, lim: &Limit) {
    let f = large.size() as f64 / small.size() as f64;
    let (rs, rl) = (small.runner(), large.runner());
    let least = |n: usize, r: &dyn Fn() -> bool| {
        let mut best: Option<Cost> = None;
        let mut ok = false;
        for _ in 0..n {
            let (o, k) = cost(r);
            ok = o;
            best = Some(match best {
                None => k,
                Some(b) => Cost {
                    ns: b.ns.min(k.ns),
                    count: b.count.min(k.count),
                    bytes: b.bytes.min(k.bytes),
                    peak: b.peak.min(k.peak),
                },
            });
        }
        (ok, best.unwrap())
    };
    let (ok, mut a) = least(4, &*rs);
    let _ = sut(&*rl); // warms the memory
    let (okl, mut b) = least(1, &*rl);
    c.stat(if okl { "large inputs accepted" } else { "large inputs rejected" }, 1);
    c.stat("bytes of large inputs", large.size());
    let _ = ok;
    let norm = |a: &Cost, b: &Cost| {
        (
            // floors: below them an execution says nothing about growth
            ratio(a.ns, b.ns, 40_000) / f,
            ratio(a.count, b.count, 60) / f,
            ratio(a.bytes, b.bytes, 16_000) / f,
            ratio(a.peak, b.peak, 8_000) / f,
        )
    };
    let mut g = norm(&a, &b);
    for round in [3, 8] {
        if g.0 <= lim.time {
            break;
        }
        // again, to be sure
        c.stat("measured again", 1);
        let (_, a2) = least(round * 4, &*rs);
        let (_, b2) = least(round, &*rl);
        // the greatest of the least for the small, the least for the large
        a.ns = a2.ns.max(a.ns);
        b.ns = b.ns.min(b2.ns);
        g = norm(&a, &b);
    }
    let pct = |x: f64| (x * 10.0) as usize;
    c.stat(format!("time to size, in tenths: {}", match pct(g.0) { 0..=4 => "0-4", 5..=9 => "5-9", 10..=14 => "10-14", 15..=19 => "15-19", 20..=29 => "20-29", _ => "30-" }), 1);
    if std::env::var_os("VMON_SHOW").is_some() {
        eprintln!("{:>5.2} {:>5.2} {:>5.2} {:>5.2} {:>9} us {:>9} us x{f:.0} {what} {okl}", g.0, g.1, g.2, g.3, a.ns / 1000, b.ns / 1000);
    }
    let mut bad = |n: &str, x: f64, s: u64, l: u64| {
        c.diffs.push(diff(
            Facet::Crash,
            format!("[{what}] {n} grows {x:.1} times faster than the input: from {s} to {l} as the input grows {f:.1} times, from {} bytes", small.size()),
        ))
    };
    // no input is expensive out of all proportion
    let n = small.size() as u64;
    if a.ns > 100_000_000 + 30_000 * n {
        bad("processor time (ns) without proportion", g.0, a.ns, b.ns);
    }
    if a.peak > 4_000_000 + 3_000 * n {
        bad("memory in use without proportion", g.3, a.peak, b.peak);
    }
    if g.0 > lim.time {
        bad("processor time (ns)", g.0, a.ns, b.ns);
    }
    if g.1 > lim.memory {
        bad("the number of allocations", g.1, a.count, b.count);
    }
    if g.2 > lim.memory {
        bad("memory allocated", g.2, a.bytes, b.bytes);
    }
    if g.3 > lim.memory {
        bad("memory in use", g.3, a.peak, b.peak);
    }
}

const LIMIT: Limit = Limit { time: 4.0, memory: 2.6 };

pub fn family_count() -> u64 {
    families().len() as u64
}

pub fn fixed(env: &Env, i: u64) -> Case {
    KEEP.store(true, Relaxed);
    let f = &families()[i as usize];
    let more = if env.tier == Tier::Thorough && f.factor == F { 4 } else { 1 };
    let (small, large) = ((f.make)(f.base), (f.make)(f.base * f.factor * more));
    let mut c = Case::new(format!("{}, {} and {} times\n{}", f.name, f.base, f.base * f.factor * more, small.show()));
    about_to_try(&c.input);
    judge(&mut c, f.name, &small, &large, &LIMIT);
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

/// Any stretch of any text, repeated.
pub fn pumped(env: &Env, i: u64) -> Case {
    KEEP.store(true, Relaxed);
    let mut r = rng(env, "pumped", i);
    let text = match r.below(4) {
        0 => cp::corpus_mutant(env, "pumped", i, &cp::cfg_valid()),
        1 => cp::SEEDS[r.below(cp::SEEDS.len())].to_owned(),
        _ => gen::make(&mut r, &gen::Cfg { mutate: 20, ..cp::cfg_valid() }),
    };
    let (pre, mid, post) = stretch(&mut r, &text);
    let size = 6000;
    let n = (size / mid.len().max(1)).max(4);
    let big = if env.tier == Tier::Thorough { 128 } else { 40 };
    let make = |n: usize| Input::Parse(format!("{pre}{}{post}", mid.repeat(n)));
    let (small, large) = (make(n), make(n * big));
    let mut c = Case::new(format!("---- before\n{pre}\n---- {n} and {} times\n{mid}\n---- after\n{post}", n * big));
    about_to_try(&c.input);
    judge(&mut c, "pumped", &small, &large, &LIMIT);
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

/// Cuts a text in three; the middle is a few tokens or lines, or any bytes.
fn stretch<'t>(r: &mut Rng, t: &'t str) -> (&'t str, String, &'t str) {
    let at = |mut k: usize| {
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        k
    };
    if t.is_empty() {
        return ("", ";".into(), "");
    }
    let l = lex::lex(t);
    let (mut a, mut b) = (0, t.len());
    match r.below(4) {
        0 if !l.toks.is_empty() => {
            let i = r.below(l.toks.len());
            let j = (i + r.below(4)).min(l.toks.len() - 1);
            (a, b) = (l.toks[i].s, l.toks[j].e);
        }
        1 if l.toks.len() > 2 => {
            // from one token of a kind to the next of the same
            let i = r.below(l.toks.len() - 1);
            let x = &t[at(l.toks[i].s)..at(l.toks[i].e)];
            a = l.toks[i].s;
            b = l.toks[i + 1..].iter().find(|k| &t[at(k.s)..at(k.e)] == x).map_or(l.toks[i].e, |k| k.s);
        }
        2 => {
            let lines: Vec<usize> = std::iter::once(0).chain(t.match_indices('\n').map(|m| m.0 + 1)).collect();
            let i = r.below(lines.len());
            let j = (i + r.range(1, 5)).min(lines.len() - 1);
            (a, b) = (lines[i], lines[j].max(lines[i]));
        }
        _ => {
            a = r.below(t.len());
            b = (a + r.range(1, 40)).min(t.len());
        }
    }
    let (a, b) = (at(a), at(b));
    let (a, b) = if a < b { (a, b) } else { (0, t.len()) };
    let b = b.min(a + 2000);
    let b = at(b);
    let gap = *r.pick(&["", " ", " ", "\n"]);
    (&t[..a], format!("{}{gap}", &t[a..b]), &t[b..])
}
