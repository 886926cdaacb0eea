//! What a compiler does after some of what it was asked to do failed (C21).
use crate::checks_compile::{decode_set, msg_diff, Mem};
use crate::checks_parse::rng;
use crate::checks_same::mutate_tokens;
use crate::cmp::{diff, Facet};
use crate::drive::*;
use crate::prog;
use crate::rng::fnv;
use prost::Message;
use prost_reflect::DescriptorPool;
use protox::{Compiler, Error};
use std::collections::{BTreeMap, BTreeSet};

const TAILS: &[&str] = &[
    "service Zzz { rpc A(Nowhere) returns (Nowhere); }",
    "option (no_such_option) = 1;",
    "message Zzz { map<int32, int32> a = 1; map<int32, int32> b = 1; }",
    "message Zzz { message A { oneof b { int32 c = 1; .Nowhere d = 2; } } }",
    "enum Zzz { ZZZ_A = 0; } message zzz { Zzz a = 1 [(no.such) = 2]; }",
    "message Zzz { oneof a { int32 b = 1 [no_such = 2]; } }",
    "extend Nowhere { repeated int32 zzz = 1; }",
    "message 1",
    "",
];

pub fn told(r: Result<(), &Error>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => {
            let mut s = format!("{e}");
            let mut x: Option<&dyn std::error::Error> = std::error::Error::source(e);
            while let Some(y) = x {
                s += &format!(": {y}");
                x = y.source();
            }
            if let Some(l) = miette::Diagnostic::labels(e) {
                for l in l {
                    s += &format!(" [{} {}]", l.offset(), l.len());
                }
            }
            s
        }
    }
}

/// Whether two complete outputs hold the same files in the same order with the same options. A list
/// in the value of an option may be packed or not.
fn same_values(a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let read = |x: &[u8]| prost_types::FileDescriptorSet::decode(x).map_err(|e| e.to_string());
    let (x, y) = (read(a)?, read(b)?);
    for (f, g) in x.file.iter().zip(&y.file) {
        if f != g {
            return Err(format!("{} and {} differ", f.name(), g.name()));
        }
    }
    if x.file.len() != y.file.len() {
        return Err(format!("{} and {} files", x.file.len(), y.file.len()));
    }
    let pool = DescriptorPool::decode(b).map_err(|e| e.to_string())?;
    let (p, q) = (decode_set(&pool, a)?, decode_set(&pool, b)?);
    for ((n, x), (_, y)) in p.iter().zip(&q) {
        if let Some(d) = msg_diff(x, y) {
            return Err(format!("different options: {n}{d}"));
        }
    }
    Ok(())
}

/// Every message knows the extensions of it that there are, and no others.
fn extensions_known(k: &Compiler) -> Result<usize, String> {
    let pool = k.descriptor_pool();
    let mut by: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for x in pool.all_extensions() {
        by.entry(x.containing_message().full_name().to_owned()).or_default().insert(x.full_name().to_owned());
    }
    let mut n = 0;
    for m in pool.all_messages() {
        let mine: BTreeSet<String> = m.extensions().map(|x| x.full_name().to_owned()).collect();
        let all = by.remove(m.full_name()).unwrap_or_default();
        if mine != all {
            return Err(format!("extensions of {}: it knows {mine:?}, there are {all:?}", m.full_name()));
        }
        n += mine.len();
    }
    Ok(n)
}

pub fn after_failures(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "after failures", i);
    let mut p = prog::program(&mut r, 4);
    for k in 0..p.files.len() {
        if r.one_in(2) {
            continue;
        }
        let (n, t) = p.files[k].clone();
        let t = if r.one_in(6) {
            mutate_tokens(&mut r, &t, &p.files)
        } else {
            format!("{t}\n{}\n", r.pick(TAILS))
        };
        p.files.push((format!("bad/{n}"), t));
    }
    let names: Vec<String> = p.files.iter().map(|f| f.0.clone()).collect();
    let mut ops: Vec<&str> = vec![];
    let n = r.range(2, 7);
    for _ in 0..n {
        let bad: Vec<&String> = names.iter().filter(|n| n.starts_with("bad/")).collect();
        ops.push(if !bad.is_empty() && r.one_in(2) { *r.pick(&bad) } else { r.pick(&names) });
    }
    let mut c = Case::new(format!("open {ops:?}\n{}", p.show()));
    about_to_try(&c.input);
    let mem = Mem::of(&p);
    let mut k = Compiler::with_file_resolver(mem.chain());
    k.include_imports(true).include_source_info(true);
    for (j, op) in ops.iter().enumerate() {
        let mut f = Compiler::with_file_resolver(mem.chain());
        f.include_imports(true).include_source_info(true);
        let have: Vec<String> = k.files().map(|f| f.name().to_owned()).collect();
        for h in &have {
            if let Err(e) = sut(|| f.open_file(h).err()).map_or(Ok(()), Err) {
                c.diffs.push(diff(Facet::Graph, format!("before step {}, {h} is there, but a new compiler that is given {have:?} says: {e}", j + 1)));
                return c;
            }
        }
        let (a, b) = (sut(|| told(k.open_file(op).map(|_| ()).as_ref().map(|_| ()))), sut(|| told(f.open_file(op).map(|_| ()).as_ref().map(|_| ()))));
        if a != b {
            c.diffs.push(diff(Facet::Graph, format!("step {}, open {op}: {a}; without the failures before it: {b}", j + 1)));
            return c;
        }
        if a == "ok" {
            c.stat("opened", 1);
            let (a, b) = (sut(|| k.encode_file_descriptor_set()), sut(|| f.encode_file_descriptor_set()));
            if let Err(e) = same_values(&a, &b) {
                c.diffs.push(diff(Facet::Graph, format!("after step {}, open {op}: {e}", j + 1)));
                return c;
            }
            c.stat("outputs compared", 1);
        } else {
            c.stat("failed to open", 1);
        }
        match sut(|| extensions_known(&k)) {
            Ok(n) => c.stat("extensions seen from their messages", n),
            Err(e) => {
                c.diffs.push(diff(Facet::Graph, format!("after step {}, open {op}: {e}", j + 1)));
                return c;
            }
        }
    }
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}
