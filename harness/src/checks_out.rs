//! Outputs of the compiler against each other (C19), and descriptors as inputs (C23).
use crate::checks_compile::{compile_mem, decode_set, deps, msg_diff, topological, Entry, Mem, Scratch};
use crate::checks_disk::go_to_scratch;
use crate::checks_parse::rng;
use crate::cmp::{diff, Diff, Facet};
use crate::drive::*;
use crate::prog::{self, Program};
use crate::rng::{fnv, Rng};
use bytes::{Buf, Bytes};
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage, Value};
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::{Compiler, Error};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

fn with(k: &mut Compiler, imports: bool, info: bool) -> (FileDescriptorSet, Vec<u8>) {
    k.include_imports(imports).include_source_info(info);
    (sut(|| k.file_descriptor_set()), sut(|| k.encode_file_descriptor_set()))
}

fn by_name(v: Vec<(String, DynamicMessage)>) -> BTreeMap<String, DynamicMessage> {
    v.into_iter().collect()
}

fn no_info(f: &FileDescriptorProto) -> FileDescriptorProto {
    FileDescriptorProto {
        source_code_info: None,
        ..f.clone()
    }
}

/// Every option message of the files of a pool.
fn all_options(p: &DescriptorPool) -> Vec<(String, DynamicMessage)> {
    let mut v = vec![];
    for f in p.files() {
        v.push((format!("file {}", f.name()), f.options()));
    }
    for m in p.all_messages() {
        v.push((m.full_name().to_owned(), m.options()));
        for f in m.fields() {
            v.push((f.full_name().to_owned(), f.options()));
        }
        for f in m.oneofs() {
            v.push((f.full_name().to_owned(), f.options()));
        }
    }
    for e in p.all_enums() {
        v.push((e.full_name().to_owned(), e.options()));
        for x in e.values() {
            v.push((format!("{} {}", e.full_name(), x.name()), x.options()));
        }
    }
    for e in p.all_extensions() {
        v.push((e.full_name().to_owned(), e.options()));
    }
    for s in p.services() {
        v.push((s.full_name().to_owned(), s.options()));
        for m in s.methods() {
            v.push((m.full_name().to_owned(), m.options()));
        }
    }
    v
}

/// What a pool says of its messages, fields, enums, extensions and services.
fn all_elements(p: &DescriptorPool) -> Vec<String> {
    let mut v = vec![];
    for f in p.files() {
        v.push(format!("file {} {} {:?} {:?}", f.name(), f.package_name(), f.syntax(), f.dependencies().map(|d| d.name().to_owned()).collect::<Vec<_>>()));
        v.push(format!("public {:?}", f.public_dependencies().map(|d| d.name().to_owned()).collect::<Vec<_>>()));
    }
    for m in p.all_messages() {
        let mut x: Vec<String> = m.extensions().map(|x| x.full_name().to_owned()).collect();
        x.sort();
        v.push(format!(
            "message {} in {} of {} map {} reserved {:?} {:?} extensible {:?} by {x:?} parent {:?}",
            m.full_name(),
            m.parent_file().name(),
            m.package_name(),
            m.is_map_entry(),
            m.reserved_ranges().collect::<Vec<_>>(),
            m.reserved_names().collect::<Vec<_>>(),
            m.extension_ranges().collect::<Vec<_>>(),
            m.parent_message().map(|m| m.full_name().to_owned()),
        ));
        for f in m.fields() {
            let has_options = f.field_descriptor_proto().options.is_some();
            v.push(format!(
                "field {} {} {:?} {:?} json {} group {} list {} map {} presence {} oneof {:?} default {:?} packed {:?}",
                f.full_name(),
                f.number(),
                f.kind(),
                f.cardinality(),
                f.json_name(),
                f.is_group(),
                f.is_list(),
                f.is_map(),
                f.supports_presence(),
                f.containing_oneof().map(|o| o.full_name().to_owned()),
                f.field_descriptor_proto().default_value,
                // with options: a known finding
                (!has_options).then(|| f.is_packed())
            ));
        }
        for o in m.oneofs() {
            v.push(format!("oneof {} of {:?}", o.full_name(), o.fields().map(|f| f.name().to_owned()).collect::<Vec<_>>()));
        }
    }
    for e in p.all_enums() {
        v.push(format!("enum {} in {} default {:?}", e.full_name(), e.parent_file().name(), e.default_value().name()));
        for x in e.values() {
            v.push(format!("value {} {}", x.full_name(), x.number()));
        }
        v.push(format!("reserved {:?} {:?}", e.reserved_ranges().collect::<Vec<_>>(), e.reserved_names().collect::<Vec<_>>()));
    }
    for x in p.all_extensions() {
        v.push(format!(
            "extension {} {} of {} {:?} {:?} in {:?} json {}",
            x.full_name(),
            x.number(),
            x.containing_message().full_name(),
            x.kind(),
            x.cardinality(),
            x.parent_message().map(|m| m.full_name().to_owned()),
            x.json_name()
        ));
    }
    for s in p.services() {
        v.push(format!("service {} in {}", s.full_name(), s.parent_file().name()));
        for m in s.methods() {
            v.push(format!(
                "method {} {} {} {} {}",
                m.full_name(),
                m.input().full_name(),
                m.output().full_name(),
                m.is_client_streaming(),
                m.is_server_streaming()
            ));
        }
    }
    v
}

/// A packed field in the pool of a compiler: once seen to be wrong.
pub fn packed(_: &Env, _: u64) -> Case {
    let text = "syntax = \"proto2\"; message M { repeated int32 a = 1 [packed = true]; }";
    let mut c = Case::new(text.to_owned());
    about_to_try(text);
    let mem = Mem {
        files: Arc::new([("a.proto".to_owned(), Entry::Source(text.to_owned()))].into_iter().collect()),
        ..Mem::default()
    };
    let mut k = Compiler::with_file_resolver(mem);
    match sut(|| k.open_file("a.proto").err()) {
        Some(e) => c.diffs.push(diff(Facet::Output, format!("not compiled: {e}"))),
        None => {
            let f = k.descriptor_pool().get_message_by_name("M").and_then(|m| m.get_field_by_name("a"));
            if !f.is_some_and(|f| f.is_packed()) {
                c.diffs.push(diff(Facet::Output, "[a packed field] the pool says that it is not packed"));
            }
        }
    }
    c.nontrivial = Some(1);
    c
}

fn uninterpreted(f: &FileDescriptorProto) -> bool {
    let raw = f.encode_to_vec();
    let m = DynamicMessage::decode(FileDescriptorProto::default().descriptor(), raw.as_slice()).unwrap();
    fn go(m: &DynamicMessage) -> bool {
        m.fields().any(|(f, v)| f.name() == "uninterpreted_option" || val(v))
    }
    fn val(v: &Value) -> bool {
        match v {
            Value::Message(m) => go(m),
            Value::List(l) => l.iter().any(val),
            _ => false,
        }
    }
    go(&m)
}

pub fn flags(env: &Env, i: u64) -> Case {
    flags_in(env, "flags", i)
}
pub fn flags_large(env: &Env, i: u64) -> Case {
    flags_in(env, "flags, large", i)
}
fn flags_in(env: &Env, stream: &str, i: u64) -> Case {
    let mut r = rng(env, stream, i);
    let p = prog::of(&mut r, stream, 5);
    let mut c = Case::new(p.show());
    let all: Vec<String> = p.files.iter().map(|f| f.0.clone()).collect();
    let mut opens = p.roots.clone();
    if r.one_in(3) {
        opens.push(r.pick(&all).clone());
    }
    if r.one_in(4) {
        opens.push("google/protobuf/empty.proto".into());
    }
    let mut k = Compiler::with_file_resolver(Mem::of(&p).chain());
    let mut plan = String::new();
    for o in &opens {
        while r.one_in(3) {
            let b = r.one_in(2);
            if r.one_in(2) {
                k.include_imports(b);
                plan += &format!("imports {b}; ");
            } else {
                k.include_source_info(b);
                plan += &format!("info {b}; ");
            }
        }
        plan += &format!("open {o}; ");
        c.input = format!("{plan}\n{}", p.show());
        about_to_try(&c.input);
        if let Some(e) = sut(|| k.open_file(o).err()) {
            let _ = e;
            c.stat("programs that do not compile", 1);
            return c;
        }
        if r.one_in(4) {
            // looking does not change anything
            let _ = sut(|| (k.file_descriptor_set(), k.encode_file_descriptor_set(), k.descriptor_pool()));
        }
    }
    let mut out: Vec<Diff> = vec![];
    let bad = |out: &mut Vec<Diff>, t: String| out.push(diff(Facet::Output, t));
    let pool = sut(|| k.descriptor_pool());
    let (full, full_bytes) = with(&mut k, true, true);
    let order: Vec<String> = full.file.iter().map(|f| f.name().to_owned()).collect();
    // the closure, from the descriptors themselves
    let mut closure: BTreeSet<String> = opens.iter().cloned().collect();
    loop {
        let n = closure.len();
        for f in &full.file {
            if closure.contains(f.name()) {
                closure.extend(f.dependency.iter().cloned());
            }
        }
        if closure.len() == n {
            break;
        }
    }
    if order.iter().cloned().collect::<BTreeSet<_>>() != closure || order.len() != closure.len() {
        bad(&mut out, format!("with imports the files are {order:?}, not {closure:?}"));
    }
    if let Err(e) = topological(&deps(&full)) {
        bad(&mut out, e);
    }
    let meta: Vec<(String, bool)> = k.files().map(|f| (f.name().to_owned(), f.is_import())).collect();
    let want: Vec<(String, bool)> = order.iter().map(|n| (n.clone(), !opens.contains(n))).collect();
    if meta != want {
        bad(&mut out, format!("files() tells {meta:?}, not {want:?}"));
    }
    if !pool.files().map(|f| f.name().to_owned()).eq(order.iter().cloned()) {
        bad(&mut out, "the pool has other files, or another order".into());
    }
    let full_dyn = match decode_set(&pool, &full_bytes) {
        Ok(v) => by_name(v),
        Err(e) => {
            bad(&mut out, format!("the encoded set does not decode: {e}"));
            c.diffs = out;
            return c;
        }
    };
    // flags in a random order
    let mut combos = vec![(false, false), (false, true), (true, false), (true, true)];
    for x in (1..4).rev() {
        let y = r.below(x + 1);
        combos.swap(x, y);
    }
    for (imports, info) in combos {
        let (set, bytes) = with(&mut k, imports, info);
        let what = format!("imports {imports}, source info {info}");
        let names: Vec<&str> = set.file.iter().map(|f| f.name()).collect();
        let want: Vec<&str> = order.iter().map(|s| s.as_str()).filter(|n| imports || opens.iter().any(|o| o == n)).collect();
        if names != want {
            bad(&mut out, format!("{what}: the files are {names:?}, not {want:?}"));
            continue;
        }
        for f in &set.file {
            let g = full.file.iter().find(|g| g.name() == f.name()).unwrap();
            let g = if info { g.clone() } else { no_info(g) };
            if info != f.source_code_info.is_some() {
                bad(&mut out, format!("{what}: {} has source info: {}", f.name(), !info));
            } else if *f != g {
                bad(&mut out, format!("{what}: {} differs from that of the full set", f.name()));
            }
            if uninterpreted(f) {
                bad(&mut out, format!("{what}: {} keeps uninterpreted options", f.name()));
            }
        }
        match FileDescriptorSet::decode(bytes.as_slice()) {
            Ok(s) if s == set => (),
            Ok(s) => {
                let d: Vec<&str> = set.file.iter().zip(&s.file).filter(|(a, b)| a != b).map(|x| x.0.name()).collect();
                bad(&mut out, format!("{what}: the encoded set ({} files) is not the set ({} files): {d:?}", s.file.len(), set.file.len()));
            }
            Err(e) => bad(&mut out, format!("{what}: the encoded set is broken: {e}")),
        }
        match decode_set(&pool, &bytes) {
            Err(e) => bad(&mut out, format!("{what}: {e}")),
            Ok(v) => {
                if !v.iter().map(|x| x.0.as_str()).eq(want.iter().copied()) {
                    bad(&mut out, format!("{what}: the encoded files are others, or in another order"));
                }
                for (n, m) in v {
                    let mut w = full_dyn[&n].clone();
                    if !info {
                        w.clear_field_by_name("source_code_info");
                    }
                    if let Some(d) = msg_diff(&m, &w) {
                        bad(&mut out, format!("{what}: {n}{d} (this against the full set)"));
                    }
                }
            }
        }
        if imports {
            match DescriptorPool::decode(bytes.as_slice()) {
                Err(e) => bad(&mut out, format!("{what}: no pool can be made of it: {e}")),
                Ok(q) => {
                    let (a, b) = (all_elements(&pool), all_elements(&q));
                    c.stat("elements of pools compared", a.len());
                    if let Some((x, y)) = a.iter().zip(&b).find(|(x, y)| x != y) {
                        bad(&mut out, format!("{what}: the pool has {x}, the set {y}"));
                    } else if a.len() != b.len() {
                        bad(&mut out, format!("{what}: the pool has {} elements, the set {}", a.len(), b.len()));
                    }
                    let (a, b) = (all_options(&pool), all_options(&q));
                    c.stat("option messages compared", a.len());
                    if !a.iter().map(|x| &x.0).eq(b.iter().map(|x| &x.0)) {
                        bad(&mut out, format!("{what}: the pool has other elements"));
                    } else {
                        for (x, y) in a.iter().zip(&b) {
                            c.stat("custom options seen", x.1.extensions().count());
                            if let Some(d) = msg_diff(&x.1, &y.1) {
                                bad(&mut out, format!("{what}: options of {}{d}", x.0));
                            }
                        }
                    }
                }
            }
        }
        c.stat("sets compared", 1);
        c.stat("files compared", want.len());
    }
    // asked again, the same
    if with(&mut k, true, true) != (full.clone(), full_bytes.clone()) {
        bad(&mut out, "the full set is another one when asked again".into());
    }
    if r.one_in(4) {
        // from disk, in one call
        go_to_scratch(env);
        let dir = Scratch::new(env, "o", i);
        for (n, t) in &p.files {
            dir.write(n, t);
        }
        let paths: Vec<_> = opens.iter().map(|o| if o.starts_with("google/") { o.into() } else { dir.0.join(o) }).collect();
        match sut(|| protox::compile(&paths, [&dir.0])) {
            Err(e) => bad(&mut out, format!("protox::compile: {e:?}")),
            Ok(s) if s == full => c.stat("compiled in one call", 1),
            Ok(_) => bad(&mut out, "protox::compile gives another set".into()),
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c.diffs = out;
    c
}

// ---- C23

/// A buffer in pieces.
#[derive(Clone)]
struct Pieces {
    data: Vec<Bytes>,
    at: usize,
    left: usize,
}
impl Pieces {
    fn cut(r: &mut Rng, b: &[u8]) -> Pieces {
        let mut data = vec![];
        let mut rest = b;
        let max = *r.pick(&[1, 2, 7, 64, 4096]);
        while !rest.is_empty() {
            let n = r.range(0, max).min(rest.len());
            if n == 0 && r.one_in(2) {
                continue;
            }
            data.push(Bytes::copy_from_slice(&rest[..n.max(1)]));
            rest = &rest[n.max(1)..];
        }
        Pieces { data, at: 0, left: b.len() }
    }
}
impl Buf for Pieces {
    fn remaining(&self) -> usize {
        self.left
    }
    fn chunk(&self) -> &[u8] {
        self.data.get(self.at).map_or(&[], |d| d)
    }
    fn advance(&mut self, mut n: usize) {
        self.left -= n;
        while n > 0 {
            let d = &mut self.data[self.at];
            let k = n.min(d.len());
            d.advance(k);
            n -= k;
            if d.is_empty() {
                self.at += 1;
            }
        }
    }
}

fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn get_varint(b: &[u8], at: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*at)?;
        *at += 1;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x < 0x80 {
            return Some(v);
        }
    }
    None
}

/// The fields of an encoded message: number, wire type, content (of length-delimited ones without
/// the length).
fn fields(b: &[u8]) -> Option<Vec<(u32, u8, Vec<u8>)>> {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let k = get_varint(b, &mut at)?;
        let (n, w) = ((k >> 3) as u32, (k & 7) as u8);
        let start = at;
        let c = match w {
            0 => {
                get_varint(b, &mut at)?;
                b[start..at].to_vec()
            }
            1 => {
                at += 8;
                b.get(start..at)?.to_vec()
            }
            5 => {
                at += 4;
                b.get(start..at)?.to_vec()
            }
            2 => {
                let l = get_varint(b, &mut at)? as usize;
                let s = at;
                at = at.checked_add(l)?;
                b.get(s..at)?.to_vec()
            }
            _ => return None,
        };
        v.push((n, w, c));
    }
    Some(v)
}
fn put(v: &[(u32, u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (n, w, c) in v {
        varint((*n as u64) << 3 | *w as u64, &mut o);
        if *w == 2 {
            varint(c.len() as u64, &mut o);
        }
        o.extend(c);
    }
    o
}

/// Adds unknown fields to the options of the file and of its messages, fields, enums and so on.
/// Returns how many.
fn add_unknown(r: &mut Rng, b: &[u8], level: &str, n: &mut usize) -> Vec<u8> {
    let Some(mut f) = fields(b) else { return b.to_vec() };
    // field numbers of what is nested, by kind of message
    let (options, nested): (u32, &[(u32, &str)]) = match level {
        "file" => (8, &[(4, "message"), (5, "enum"), (6, "service"), (7, "field")]),
        "message" => (7, &[(2, "field"), (3, "message"), (4, "enum"), (6, "field"), (8, "oneof")]),
        "field" => (8, &[]),
        "oneof" => (2, &[]),
        "enum" => (3, &[(2, "value")]),
        "value" => (3, &[]),
        "service" => (3, &[(2, "method")]),
        _ => (4, &[]),
    };
    for (k, w, c) in f.iter_mut() {
        if *w == 2 {
            if let Some((_, l)) = nested.iter().find(|x| x.0 == *k) {
                *c = add_unknown(r, c, l, n);
            }
        }
    }
    if r.one_in(2) {
        let u = match r.below(4) {
            0 => (99_000 + r.below(100) as u32, 0, vec![0x96, 0x01]),
            1 => (88_000, 5, vec![1, 2, 3, 4]),
            2 => (536_870_911, 1, vec![9, 8, 7, 6, 5, 4, 3, 2]),
            _ => (77_777, 2, b"\xff unknown \0 bytes".to_vec()),
        };
        *n += 1;
        match f.iter_mut().find(|x| x.0 == options && x.1 == 2) {
            Some((_, _, c)) => c.extend(put(&[u])),
            None => f.push((options, 2, put(&[u]))),
        }
    }
    put(&f)
}

fn split_set(b: &[u8]) -> Vec<Vec<u8>> {
    fields(b).unwrap_or_default().into_iter().filter(|f| f.0 == 1 && f.1 == 2).map(|f| f.2).collect()
}

fn open_all(k: &mut Compiler, roots: &[String]) -> Result<(), Error> {
    for r in roots {
        k.open_file(r)?;
    }
    Ok(())
}

/// The encoded set of the roots from this resolver, with imports.
fn compile_from<R: FileResolver + 'static>(res: R, roots: &[String], info: bool) -> Result<Vec<u8>, Error> {
    let mut chain = ChainFileResolver::new();
    chain.add(res);
    chain.add(GoogleFileResolver::new());
    let mut k = Compiler::with_file_resolver(chain);
    k.include_imports(true).include_source_info(info);
    open_all(&mut k, roots)?;
    Ok(k.encode_file_descriptor_set())
}

fn same_files(what: &str, pool: &DescriptorPool, a: &[u8], b: &[u8], out: &mut Vec<Diff>) {
    match (decode_set(pool, a), decode_set(pool, b)) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (by_name(a), by_name(b));
            if !a.keys().eq(b.keys()) {
                out.push(diff(Facet::Output, format!("{what}: files {:?} against {:?}", a.keys(), b.keys())));
                return;
            }
            for (n, x) in &a {
                if let Some(d) = msg_diff(x, &b[n]) {
                    out.push(diff(Facet::Output, format!("{what}: {n}{d}")));
                }
            }
        }
        (a, b) => out.push(diff(Facet::Output, format!("{what}: {:?} {:?}", a.err(), b.err()))),
    }
}

fn source_program(env: &Env, stream: &str, i: u64) -> (Rng, Program, Case, Option<Vec<u8>>) {
    let mut r = rng(env, stream, i);
    let p = prog::of(&mut r, stream, 4);
    let mut c = Case::new(p.show());
    about_to_try(&c.input);
    let b = sut(|| compile_mem(&p, true, true).map(|k| k.encode_file_descriptor_set()));
    if b.is_err() {
        c.stat("programs that do not compile", 1);
    }
    (r, p, c, b.ok())
}

/// Descriptors that come out go in again.
pub fn round_trip(env: &Env, i: u64) -> Case {
    round_trip_in(env, "round trip", i)
}
pub fn round_trip_large(env: &Env, i: u64) -> Case {
    round_trip_in(env, "round trip, large", i)
}
fn round_trip_in(env: &Env, stream: &str, i: u64) -> Case {
    let (mut r, p, mut c, b) = source_program(env, stream, i);
    let Some(b) = b else { return c };
    let mut out = vec![];
    let pool = match DescriptorPool::decode(b.as_slice()) {
        Ok(p) => p,
        Err(e) => {
            c.diffs.push(diff(Facet::Output, format!("no pool can be made of the output: {e}")));
            return c;
        }
    };
    let fail = |what: &str, e: Error| diff(Facet::Output, format!("{what}: {e:?}"));
    // the whole set, encoded, in one piece and in several
    for pieces in [false, true] {
        let what = if pieces { "the encoded set in pieces" } else { "the encoded set" };
        let res = if pieces {
            let q = Pieces::cut(&mut r, &b);
            sut(|| DescriptorSetFileResolver::decode(q))
        } else {
            sut(|| DescriptorSetFileResolver::decode(b.as_slice()))
        };
        match res {
            Err(e) => out.push(diff(Facet::Output, format!("{what} does not decode: {e}"))),
            Ok(res) => match sut(|| compile_from(res, &p.roots, true)) {
                Err(e) => out.push(fail(what, e)),
                Ok(b2) => {
                    same_files(what, &pool, &b2, &b, &mut out);
                    if b2 != b && out.is_empty() {
                        c.stat("same files in another encoding", 1);
                    }
                }
            },
        }
    }
    // the set as a structure: the same without custom options
    let set = FileDescriptorSet::decode(b.as_slice()).unwrap();
    match sut(|| compile_from(DescriptorSetFileResolver::new(set.clone()), &p.roots, true)) {
        Err(e) => out.push(fail("the decoded set", e)),
        Ok(b2) => match FileDescriptorSet::decode(b2.as_slice()) {
            Ok(s2) => {
                let a: BTreeMap<&str, &FileDescriptorProto> = set.file.iter().map(|f| (f.name(), f)).collect();
                let b: BTreeMap<&str, &FileDescriptorProto> = s2.file.iter().map(|f| (f.name(), f)).collect();
                if a != b {
                    let d: Vec<_> = a.keys().filter(|k| a.get(*k) != b.get(*k)).collect();
                    out.push(diff(Facet::Output, format!("the decoded set: {d:?} differ")));
                }
            }
            Err(e) => out.push(diff(Facet::Output, format!("the decoded set: {e}"))),
        },
    }
    // each file in any form
    let parts = split_set(&b);
    let mut files = BTreeMap::new();
    let mut forms = String::new();
    for (n, t) in &p.files {
        let compiled = parts.iter().find(|x| FileDescriptorProto::decode(x.as_slice()).is_ok_and(|f| f.name() == n));
        let parsed = sut(|| protox_parse::parse(n, t));
        let (form, e) = match (r.below(5), parsed, compiled) {
            (1, Ok(f), _) => ("parsed", Entry::Proto(f)),
            (2, Ok(f), _) => ("parsed and encoded", Entry::Encoded(f.encode_to_vec())),
            (3 | 4, _, Some(x)) => ("compiled", Entry::Encoded(x.clone())),
            _ => ("source", Entry::Source(t.clone())),
        };
        c.stat(format!("files as {form}"), 1);
        forms += &format!("{n}: {form}; ");
        files.insert(n.clone(), e);
    }
    let mem = Mem {
        files: Arc::new(files),
        ..Mem::default()
    };
    match sut(|| compile_from(mem, &p.roots, true)) {
        Err(e) => out.push(fail(&format!("mixed forms ({forms})"), e)),
        Ok(b2) => same_files(&format!("mixed forms ({forms})"), &pool, &b2, &b, &mut out),
    }
    c.stat("programs sent round", 1);
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c.diffs = out;
    c
}

/// Unknown fields in options are kept.
pub fn unknown(env: &Env, i: u64) -> Case {
    let (mut r, p, mut c, b) = source_program(env, "unknown", i);
    let Some(b) = b else { return c };
    let mut n = 0;
    let mut set = vec![];
    let mut files = BTreeMap::new();
    for f in split_set(&b) {
        let name = FileDescriptorProto::decode(f.as_slice()).unwrap().name().to_owned();
        // the built-in definitions stay as they are
        let g = if name.starts_with("google/protobuf/") { f } else { add_unknown(&mut r, &f, "file", &mut n) };
        files.insert(name, Entry::Encoded(g.clone()));
        set.push((1, 2, g));
    }
    let b = put(&set);
    let mut out = vec![];
    let pool = match DescriptorPool::decode(b.as_slice()) {
        Ok(p) => p,
        Err(_) => return c,
    };
    let direct = Mem {
        files: Arc::new(files),
        ..Mem::default()
    };
    for info in [true, false] {
        let mut want = b.clone();
        if !info {
            want = put(
                &split_set(&b)
                    .into_iter()
                    .map(|f| (1, 2, put(&fields(&f).unwrap().into_iter().filter(|x| x.0 != 9).collect::<Vec<_>>())))
                    .collect::<Vec<_>>(),
            );
        }
        match sut(|| DescriptorSetFileResolver::decode(b.as_slice())) {
            Err(e) => out.push(diff(Facet::Output, format!("with unknown fields: {e}"))),
            Ok(res) => match sut(|| compile_from(res, &p.roots, info)) {
                Err(e) => out.push(diff(Facet::Output, format!("with unknown fields: {e:?}"))),
                Ok(b2) => same_files(&format!("with unknown fields, source info {info}"), &pool, &b2, &want, &mut out),
            },
        }
        match sut(|| compile_from(direct.clone(), &p.roots, info)) {
            Err(e) => out.push(diff(Facet::Output, format!("single files with unknown fields: {e:?}"))),
            Ok(b2) => same_files(&format!("single files with unknown fields, source info {info}"), &pool, &b2, &want, &mut out),
        }
    }
    c.stat("unknown fields added", n);
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c.diffs = out;
    c
}

/// Bytes that are damaged, or another way of writing the same.
pub fn damaged(env: &Env, i: u64) -> Case {
    let (mut r, _p, mut c, b) = source_program(env, "damaged", i);
    let Some(mut b) = b else { return c };
    if b.len() > 20_000 {
        let f = split_set(&b);
        b = put(&f.into_iter().filter(|x| x.len() < 20_000).map(|x| (1, 2, x)).collect::<Vec<_>>());
    }
    for round in 0..12 {
        let mut d = b.clone();
        for _ in 0..r.range(0, 3) {
            if d.is_empty() {
                break;
            }
            let at = r.below(d.len());
            match r.below(7) {
                0 => d.truncate(at),
                1 => d[at] ^= 1 << r.below(8),
                2 => d[at] = r.next() as u8,
                3 => {
                    d.remove(at);
                }
                4 => d.insert(at, r.next() as u8),
                5 => d.extend(put(&[(r.range(2, 3000) as u32, 2, vec![1; r.below(5)])])),
                _ => {
                    // a huge length
                    let mut x = vec![0x0a];
                    varint(u64::MAX >> r.below(64), &mut x);
                    if r.one_in(2) {
                        d.extend(x);
                    } else {
                        d.splice(0..0, x);
                    }
                }
            }
        }
        let what = format!("round {round}");
        note_input(&format!("damaged bytes: {d:?}"));
        let want = FileDescriptorSet::decode(d.as_slice());
        let got = sut(|| DescriptorSetFileResolver::decode(d.as_slice()));
        let q = Pieces::cut(&mut r, &d);
        let got2 = sut(|| DescriptorSetFileResolver::decode(q));
        if got.is_ok() != got2.is_ok() {
            c.diffs.push(diff(Facet::Output, format!("{what}: {:?} in one piece, {:?} in several", got.as_ref().err(), got2.err())));
        }
        match (want, got) {
            (Err(_), Err(_)) => c.stat("damaged sets rejected", 1),
            (Ok(s), Ok(res)) => {
                c.stat("sets read", 1);
                let mut seen = BTreeSet::new();
                for f in &s.file {
                    if !seen.insert(f.name().to_owned()) {
                        continue;
                    }
                    match sut(|| res.open_file(f.name())) {
                        Ok(g) if g.file_descriptor_proto() == f && g.name() == f.name() && g.path().is_none() && g.source().is_none() => (),
                        Ok(_) => c.diffs.push(diff(Facet::Output, format!("{what}: {:?} is not the file of the set", f.name()))),
                        Err(e) => c.diffs.push(diff(Facet::Output, format!("{what}: {:?}: {e:?}", f.name()))),
                    }
                }
                let e = sut(|| res.open_file("not in there.proto"));
                if !e.is_err_and(|e| e.is_file_not_found()) {
                    c.diffs.push(diff(Facet::Output, format!("{what}: a file that is not there is found")));
                }
            }
            (a, g) => c.diffs.push(diff(
                Facet::Output,
                format!("{what}: as a message {:?}, as a resolver {:?}; bytes {:?}", a.err(), g.err(), &d[..d.len().min(300)]),
            )),
        }
        // single files
        let one = split_set(&d).into_iter().next().unwrap_or(d);
        let mut one = one;
        if r.one_in(2) && !one.is_empty() {
            let at = r.below(one.len());
            one[at] ^= 1 << r.below(8);
        }
        let want = FileDescriptorProto::decode(one.as_slice());
        let q = Pieces::cut(&mut r, &one);
        let got = sut(|| File::decode_file_descriptor_proto(q));
        match (want, got) {
            (Err(_), Err(_)) => c.stat("damaged files rejected", 1),
            (Ok(w), Ok(g)) => {
                if *g.file_descriptor_proto() != w || g.name() != w.name() {
                    c.diffs.push(diff(Facet::Output, format!("{what}: the file read is another")));
                }
                // and compiling it ends well, or not, but ends
                let name = w.name().to_owned();
                let mem = Mem {
                    files: Arc::new([(name.clone(), Entry::Encoded(one.clone()))].into_iter().collect()),
                    ..Mem::default()
                };
                note_input(&format!("damaged file: {one:?}"));
                let mut k = Compiler::with_file_resolver(mem.chain());
                let e = sut(|| k.open_file(&name).err());
                if e.is_none() {
                    let _ = sut(|| k.encode_file_descriptor_set());
                    c.stat("damaged files compiled", 1);
                } else if let Some(e) = e {
                    let _ = sut(|| format!("{e:?} {e}"));
                }
            }
            (w, g) => c.diffs.push(diff(Facet::Output, format!("{what}: {:?} against {:?}", w.err(), g.err()))),
        }
        if !c.diffs.is_empty() {
            break;
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

/// A name much like another.
fn near(r: &mut Rng, n: &str) -> String {
    match r.below(16) {
        0 => format!("./{n}"),
        1 => format!("/{n}"),
        2 => format!("{n}/"),
        3 => n.replacen('/', "//", 1),
        4 => n.replacen('/', "/./", 1),
        5 => n.to_uppercase(),
        6 => n.strip_suffix(".proto").unwrap_or(n).to_owned(),
        7 => format!("{n}.proto"),
        8 => n.rsplit('/').next().unwrap().to_owned(),
        9 => format!("x/{n}"),
        10 => format!(" {n}"),
        11 => format!("{n} "),
        12 => n.replace('/', "\\"),
        13 => format!("{n}\0"),
        14 => n.chars().take(n.chars().count().saturating_sub(1)).collect(),
        _ => format!("../{n}"),
    }
}

/// A file is found under its own name and no other.
pub fn names(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "names", i);
    let mut names: Vec<String> = vec![];
    for _ in 0..r.range(1, 6) {
        let n = if names.is_empty() || r.one_in(3) {
            (*r.pick(&["a.proto", "d/a.proto", "d/e/b.proto", "google/protobuf/any.proto", "", "\u{e9}.proto", "A.PROTO", "e\u{301}.proto"])).to_owned()
        } else {
            let n = r.pick(&names).clone();
            near(&mut r, &n)
        };
        names.push(n);
    }
    let set = FileDescriptorSet {
        file: names
            .iter()
            .enumerate()
            .map(|(i, n)| FileDescriptorProto {
                name: if n.is_empty() && i % 2 == 0 { None } else { Some(n.clone()) },
                package: Some(format!("p{i}")),
                ..Default::default()
            })
            .collect(),
    };
    let mut c = Case::new(format!("a set of files named {names:?}"));
    about_to_try(&c.input);
    let bytes = set.encode_to_vec();
    let read = match sut(|| DescriptorSetFileResolver::decode(bytes.as_slice())) {
        Ok(read) => read,
        Err(e) => {
            c.diffs.push(diff(Facet::Output, format!("a set of empty files does not decode: {e}")));
            return c;
        }
    };
    let both = [("of a set", sut(|| DescriptorSetFileResolver::new(set.clone()))), ("of bytes", read)];
    let mut asked = names.clone();
    for n in &names {
        for _ in 0..3 {
            asked.push(near(&mut r, n));
        }
    }
    for (what, res) in both {
        for n in &asked {
            let want = set.file.iter().find(|f| f.name() == n);
            match (want, sut(|| res.open_file(n))) {
                (Some(w), Ok(f)) => {
                    if f.file_descriptor_proto() != w || f.name() != n {
                        c.diffs.push(diff(Facet::Output, format!("{what}: {n:?} gives {:?} of {:?}", f.name(), f.file_descriptor_proto().package())));
                    }
                    c.stat("files found by name", 1);
                }
                (None, Err(e)) => {
                    if !e.is_file_not_found() || e.is_io() || e.is_parse() || !format!("{e}").contains(n.as_str()) {
                        c.diffs.push(diff(Facet::Output, format!("{what}: {n:?}: {e:?}")));
                    }
                    c.stat("names of no file", 1);
                }
                (w, g) => c.diffs.push(diff(
                    Facet::Output,
                    format!("{what}: {n:?} is there: {}, found: {:?}", w.is_some(), g.map(|f| f.name().to_owned())),
                )),
            }
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}
