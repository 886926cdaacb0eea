//! Checks of the compiler as a whole: programs of several files.
use crate::checks_parse::rng;
use crate::cmp::{diff, Facet};
use crate::drive::*;
use crate::prog::{self, Program};
use crate::rng::fnv;
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, MapKey, ReflectMessage, Value};
use protox::file::{ChainFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver};
use protox::{Compiler, Error};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Arc, Mutex};

// ---- a resolver in memory, which logs what it is asked

#[derive(Clone)]
pub enum Entry {
    Source(String),
    Proto(prost_types::FileDescriptorProto),
    Encoded(Vec<u8>),
    /// Fails with a custom error
    Fail(String),
    /// Fails with an I/O error
    FailIo(String),
}

#[derive(Clone, Default)]
pub struct Mem {
    pub files: Arc<BTreeMap<String, Entry>>,
    pub log: Arc<Mutex<Vec<String>>>,
    /// Physical path to name
    pub paths: Arc<BTreeMap<PathBuf, String>>,
    /// Directories to read instead
    pub dirs: Arc<Vec<PathBuf>>,
    /// Without the well-known files
    pub bare: bool,
}

/// Files on disk, logging each that is read.
struct Logged {
    include: IncludeFileResolver,
    log: Arc<Mutex<Vec<String>>>,
}
impl FileResolver for Logged {
    fn resolve_path(&self, path: &Path) -> Option<String> {
        self.include.resolve_path(path)
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let r = self.include.open_file(name);
        if !r.as_ref().is_err_and(|e| e.is_file_not_found()) {
            self.log.lock().unwrap().push(name.to_owned());
        }
        r
    }
}

impl Mem {
    pub fn of(p: &Program) -> Mem {
        Mem {
            files: Arc::new(p.files.iter().map(|(n, t)| (n.clone(), Entry::Source(t.clone()))).collect()),
            ..Mem::default()
        }
    }
    pub fn chain(&self) -> ChainFileResolver {
        let mut c = ChainFileResolver::new();
        if self.dirs.is_empty() {
            c.add(self.clone());
        }
        for d in self.dirs.iter() {
            c.add(Logged {
                include: IncludeFileResolver::new(d.clone()),
                log: self.log.clone(),
            });
        }
        if !self.bare {
            c.add(GoogleFileResolver::new());
        }
        c
    }
    pub fn take_log(&self) -> Vec<String> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
}

impl FileResolver for Mem {
    fn resolve_path(&self, path: &Path) -> Option<String> {
        self.paths.get(path).cloned()
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        self.log.lock().unwrap().push(name.to_owned());
        match self.files.get(name) {
            None => Err(Error::file_not_found(name)),
            Some(Entry::Source(s)) => File::from_source(name, s),
            Some(Entry::Proto(p)) => Ok(File::from_file_descriptor_proto(p.clone())),
            Some(Entry::Encoded(b)) => File::decode_file_descriptor_proto(b.as_slice()).map_err(Error::new),
            Some(Entry::Fail(e)) => Err(Error::new(e.clone())),
            Some(Entry::FailIo(e)) => Err(std::io::Error::new(io_kind(e), e.clone()).into()),
        }
    }
}

/// Some kind of I/O error, the same for the same text.
pub fn io_kind(text: &str) -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    const KINDS: [std::io::ErrorKind; 8] = [Other, NotFound, PermissionDenied, InvalidData, UnexpectedEof, Interrupted, TimedOut, AlreadyExists];
    KINDS[(crate::rng::fnv(text.as_bytes()) >> 7) as usize % KINDS.len()]
}

// ---- comparison of values

fn fields_of(m: &DynamicMessage) -> BTreeMap<u32, (String, Value)> {
    let mut v = BTreeMap::new();
    for (f, x) in m.fields() {
        v.insert(f.number(), (f.name().to_owned(), x.clone()));
    }
    for (f, x) in m.extensions() {
        v.insert(f.number(), (format!("[{}]", f.full_name()), x.clone()));
    }
    v
}

fn as_number(m: &DynamicMessage) -> Option<f64> {
    let Value::EnumNumber(t) = m.get_field_by_name("type")?.into_owned() else { return None };
    let d = m.get_field_by_name("default_value")?.into_owned();
    let d = d.as_str()?;
    match t {
        1 => d.parse().ok(),
        2 => d.parse::<f32>().ok().map(|x| x as f64),
        _ => None,
    }
}

/// The first difference of two messages of the same type; floats by bits, default values of float
/// fields by value.
pub fn msg_diff(a: &DynamicMessage, b: &DynamicMessage) -> Option<String> {
    let (fa, fb) = (fields_of(a), fields_of(b));
    let float_default = a.descriptor().full_name() == "google.protobuf.FieldDescriptorProto"
        && as_number(a).is_some_and(|x| as_number(b).is_some_and(|y| x == y || (x.is_nan() && y.is_nan())));
    for n in fa.keys().chain(fb.keys()) {
        match (fa.get(n), fb.get(n)) {
            (Some((name, x)), Some((_, y))) => {
                if name == "default_value" && float_default {
                    continue;
                }
                if let Some(d) = val_diff(x, y) {
                    let tag = match fa.get(&1) {
                        Some((k, Value::String(s))) if k == "name" => format!("({s})"),
                        _ => String::new(),
                    };
                    return Some(format!("{tag}.{name}{d}"));
                }
            }
            (Some((name, x)), None) => return Some(format!(".{name}: {x:.200} against nothing")),
            (None, Some((name, y))) => return Some(format!(".{name}: nothing against {y:.200}")),
            (None, None) => (),
        }
    }
    let (mut ua, mut ub) = (vec![], vec![]);
    for u in a.unknown_fields() {
        u.encode(&mut ua);
    }
    for u in b.unknown_fields() {
        u.encode(&mut ub);
    }
    if ua != ub {
        return Some(format!(": unknown fields {ua:?} against {ub:?}"));
    }
    None
}
pub fn val_diff(a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::F64(x), Value::F64(y)) if x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) => None,
        (Value::F32(x), Value::F32(y)) if x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) => None,
        (Value::Message(x), Value::Message(y)) => msg_diff(x, y),
        (Value::List(x), Value::List(y)) => {
            for i in 0..x.len().max(y.len()) {
                match (x.get(i), y.get(i)) {
                    (Some(p), Some(q)) => {
                        if let Some(d) = val_diff(p, q) {
                            return Some(format!("[{i}]{d}"));
                        }
                    }
                    (p, q) => return Some(format!("[{i}]: {p:?} against {q:?}")),
                }
            }
            None
        }
        (Value::Map(x), Value::Map(y)) => {
            for k in x.keys().chain(y.keys()) {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => {
                        if let Some(d) = val_diff(p, q) {
                            return Some(format!("[{}]{d}", key(k)));
                        }
                    }
                    (p, q) => return Some(format!("[{}]: {p:?} against {q:?}", key(k))),
                }
            }
            None
        }
        (x, y) if x == y => None,
        (x, y) => Some(format!(": {x:.200} against {y:.200}")),
    }
}
fn key(k: &MapKey) -> String {
    format!("{k:?}")
}

/// The files of an encoded descriptor set, decoded with the extensions that the pool knows.
pub fn decode_set(pool: &DescriptorPool, bytes: &[u8]) -> Result<Vec<(String, DynamicMessage)>, String> {
    let desc = pool
        .get_message_by_name("google.protobuf.FileDescriptorSet")
        .or_else(|| DescriptorPool::global().get_message_by_name("google.protobuf.FileDescriptorSet"))
        .ok_or("no descriptor of descriptor sets")?;
    let m = DynamicMessage::decode(desc, bytes).map_err(|e| e.to_string())?;
    let Value::List(l) = m.get_field_by_name("file").ok_or("no files")?.into_owned() else { return Err("no list".into()) };
    Ok(l.into_iter()
        .filter_map(|v| match v {
            Value::Message(m) => Some((
                m.get_field_by_name("name").and_then(|n| n.as_str().map(str::to_owned)).unwrap_or_default(),
                m,
            )),
            _ => None,
        })
        .collect())
}

/// Whether every file comes after all those it imports.
pub fn topological(set: &[(String, Vec<String>)]) -> Result<(), String> {
    let mut seen = std::collections::HashSet::new();
    for (n, deps) in set {
        for d in deps {
            if !seen.contains(d.as_str()) {
                return Err(format!("{n} comes before its import {d}"));
            }
        }
        if !seen.insert(n.as_str()) {
            return Err(format!("{n} is there twice"));
        }
    }
    Ok(())
}

pub fn deps(set: &prost_types::FileDescriptorSet) -> Vec<(String, Vec<String>)> {
    set.file.iter().map(|f| (f.name().to_owned(), f.dependency.clone())).collect()
}

// ---- scratch directories

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(env: &Env, stream: &str, i: u64) -> Scratch {
        let d = env.scratch.join(format!("{stream}-{i}-{}", std::process::id()));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn write(&self, name: &str, text: impl AsRef<[u8]>) {
        let p = self.0.join(name);
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).unwrap();
        }
        fs::write(p, text).unwrap();
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn compile_mem(p: &Program, imports: bool, info: bool) -> Result<Compiler, Error> {
    let mut c = Compiler::with_file_resolver(Mem::of(p).chain());
    c.include_imports(imports).include_source_info(info);
    for r in &p.roots {
        c.open_file(r)?;
    }
    Ok(c)
}

// ---- C20: agreement with protoc

pub fn protoc_agrees(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "protoc", i);
    let p = prog::program(&mut r, 5);
    agrees_on(env, "protoc", i, &p)
}
pub fn protoc_agrees_large(env: &Env, i: u64) -> Case {
    let p = prog::large(&mut rng(env, "protoc, large", i));
    agrees_on(env, "protoc, large", i, &p)
}

const FIXED: &[(&str, &[(&str, &str)])] = &[(
    "a public import of a public import",
    &[
        ("a.proto", "syntax = \"proto2\"; message A { }"),
        ("b.proto", "syntax = \"proto2\"; import public \"a.proto\";"),
        ("c.proto", "syntax = \"proto2\"; import public \"b.proto\";"),
        ("d.proto", "syntax = \"proto2\"; import \"c.proto\"; message D { optional A a = 1; }"),
    ],
)];
pub const FIXED_LEN: u64 = FIXED.len() as u64;

/// Programs on which protoc and protox were once seen to disagree.
pub fn protoc_fixed(env: &Env, i: u64) -> Case {
    let (what, files) = FIXED[i as usize];
    let p = Program {
        files: files.iter().map(|(n, t)| (n.to_string(), t.to_string())).collect(),
        roots: vec![files[files.len() - 1].0.to_owned()],
    };
    let mut c = agrees_on(env, "fixed", i, &p);
    for d in &mut c.diffs {
        d.what = format!("[{what}] {}", d.what);
    }
    c
}

fn agrees_on(env: &Env, stream: &str, i: u64, p: &Program) -> Case {
    let mut c = Case::new(p.show());
    let dir = Scratch::new(env, stream, i);
    for (n, t) in &p.files {
        dir.write(&format!("src/{n}"), t);
    }
    about_to_try(&c.input);
    let src = dir.0.join("src");
    let out = dir.0.join("out.bin");
    let o = Command::new("/usr/bin/protoc")
        .arg(format!("-I{}", src.display()))
        .arg(format!("--descriptor_set_out={}", out.display()))
        .arg("--include_imports")
        .args(&p.roots)
        .current_dir(&dir.0)
        .output()
        .expect("protoc");
    let mine = sut(|| -> Result<_, Error> {
        let mut k = Compiler::new([&src])?;
        k.include_imports(true);
        for r in &p.roots {
            k.open_file(src.join(r))?;
        }
        Ok((k.encode_file_descriptor_set(), k.file_descriptor_set()))
    });
    if !o.status.success() {
        c.stat("programs protoc rejects", 1);
        if std::env::var_os("VMON_SHOW").is_some() {
            eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        }
        return c;
    }
    c.stat("programs protoc accepts", 1);
    let theirs = fs::read(&out).unwrap();
    let (mine, set) = match mine {
        Ok(x) => x,
        Err(e) => {
            c.diffs.push(diff(Facet::Meta, format!("protoc accepts, protox does not: {e:?}")));
            return c;
        }
    };
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c.stat("files compared", set.file.len());
    c.stat("bytes compared", theirs.len());
    if let Err(e) = topological(&deps(&set)) {
        c.diffs.push(diff(Facet::Graph, e));
    }
    match agree(&mine, &theirs) {
        Ok(()) => (),
        Err(e) => c.diffs.push(diff(Facet::Meta, e)),
    }
    c
}

/// Whether two encoded descriptor sets hold the same files.
pub fn agree(mine: &[u8], theirs: &[u8]) -> Result<(), String> {
    let pool = DescriptorPool::decode(theirs).map_err(|e| format!("(protoc's set does not load: {e})"))?;
    let a = decode_set(&pool, mine)?;
    let b = decode_set(&pool, theirs)?;
    let by = |v: Vec<(String, DynamicMessage)>| v.into_iter().collect::<BTreeMap<_, _>>();
    let (n, m) = (a.len(), b.len());
    let (a, b) = (by(a), by(b));
    if n != m || !a.keys().eq(b.keys()) {
        return Err(format!("files {:?} against {:?}", a.keys(), b.keys()));
    }
    for (n, x) in &a {
        if let Some(d) = msg_diff(x, &b[n]) {
            return Err(format!("{n}{d}"));
        }
    }
    Ok(())
}

/// Whether two outputs of the compiler for the same program are the same. The entries of a map in a
/// custom option come in any order, which is a known finding of C14; all else is compared exactly.
pub fn same_output(text: &str, a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    if !(text.contains("map<") || text.contains("map <")) {
        return Err(format!("different bytes ({} and {})", a.len(), b.len()));
    }
    let x = prost_types::FileDescriptorSet::decode(a).map_err(|e| e.to_string())?;
    let y = prost_types::FileDescriptorSet::decode(b).map_err(|e| e.to_string())?;
    if x != y || a.len() != b.len() {
        let by = x.file.iter().zip(&y.file).find(|(f, g)| f != g).map(|(f, g)| (f.encode_to_vec(), g.encode_to_vec()));
        let at = by.map(|(f, g)| {
            let n = f.iter().zip(&g).position(|(p, q)| p != q).unwrap_or(f.len().min(g.len()));
            let part = |v: &[u8]| String::from_utf8_lossy(&v[n.saturating_sub(30)..v.len().min(n + 30)]).into_owned();
            (part(&f), part(&g))
        });
        return Err(format!("different contents ({} and {} bytes, {at:?})", a.len(), b.len()));
    }
    if x.file.iter().flat_map(|f| &f.dependency).all(|d| x.file.iter().any(|g| g.name() == d)) {
        // complete: the options can be decoded
        if let Ok(pool) = DescriptorPool::decode(a) {
            let p = decode_set(&pool, a)?;
            let q = decode_set(&pool, b)?;
            for ((n, x), (_, y)) in p.iter().zip(&q) {
                if let Some(d) = msg_diff(x, y) {
                    return Err(format!("different options: {n}{d}"));
                }
            }
            return Ok(());
        }
    }
    let (mut x, mut y) = (a.to_vec(), b.to_vec());
    x.sort_unstable();
    y.sort_unstable();
    if x != y {
        return Err("different options".into());
    }
    Ok(())
}

pub fn encoded(set: &prost_types::FileDescriptorSet) -> Vec<u8> {
    set.encode_to_vec()
}
