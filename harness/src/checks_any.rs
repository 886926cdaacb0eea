//! Anything at all as input (C01): the code under test may say yes or no, and nothing else.
use crate::checks_compile::{Entry, Mem};
use crate::checks_parse::{self as cp, rng};
use crate::checks_same::{broken_program, mutate_tokens};
use crate::cmp::{diff, Facet};
use crate::drive::*;
use crate::gen;
use crate::rng::{fnv, Rng};
use prost::Message;
use prost_types::source_code_info::Location;
use prost_types::uninterpreted_option::NamePart;
use prost_types::{
    descriptor_proto, enum_descriptor_proto, DescriptorProto, EnumDescriptorProto, EnumOptions,
    EnumValueDescriptorProto, EnumValueOptions, ExtensionRangeOptions, FieldDescriptorProto,
    FieldOptions, FileDescriptorProto, FileDescriptorSet, FileOptions, MessageOptions,
    MethodDescriptorProto, MethodOptions, OneofDescriptorProto, OneofOptions,
    ServiceDescriptorProto, ServiceOptions, SourceCodeInfo, UninterpretedOption,
};
use protox::file::{DescriptorSetFileResolver, File};
use protox::Compiler;
use std::collections::BTreeMap;
use std::process::Command;
use std::sync::Arc;

fn graphical(e: &dyn miette::Diagnostic) {
    let mut s = String::new();
    let h = miette::GraphicalReportHandler::new_themed(miette::GraphicalTheme::unicode_nocolor());
    let _ = h.render_report(&mut s, e);
}

/// `wide`: a line of the text is so long that the graphical report is known to fail.
fn render(e: &dyn miette::Diagnostic, wide: bool, c: &mut Case) {
    let mut s = String::new();
    if !wide {
        graphical(e);
    }
    let _ = miette::NarratableReportHandler::new().render_report(&mut s, e);
    let _ = miette::JSONReportHandler::new().render_report(&mut s, e);
    c.stat("errors rendered", 1);
}

/// Parses, and uses whatever comes back.
fn try_parse(c: &mut Case, name: &str, text: &str, show: bool) {
    let res = sut(|| protox_parse::parse(name, text));
    match res {
        Ok(f) => {
            c.stat("texts accepted", 1);
            let _ = sut(|| f.encode_to_vec().len());
        }
        Err(e) => {
            c.stat("texts rejected", 1);
            sut(|| {
                let _ = (e.to_string(), e.file().len());
                if show {
                    let _ = format!("{e:?}");
                    render(&e, text.split('\n').any(|l| l.len() > 10_000), c);
                }
            });
        }
    }
    c.stat("bytes parsed", text.len());
}

fn try_compile(c: &mut Case, mem: Mem, roots: &[String], info: bool) {
    sut(|| {
        let mut k = Compiler::with_file_resolver(mem.chain());
        k.include_imports(true).include_source_info(info);
        for r in roots {
            match k.open_file(r) {
                Ok(_) => c.stat("files compiled", 1),
                Err(e) => {
                    c.stat("files not compiled", 1);
                    let _ = (e.to_string(), format!("{e:?}"), e.file().map(str::len));
                    render(&e, false, c);
                }
            }
        }
        let s = k.file_descriptor_set();
        let b = k.encode_file_descriptor_set();
        let n: usize = k.files().map(|f| f.name().len() + f.is_import() as usize).sum();
        let _ = (s, b, n, k.descriptor_pool());
    })
}

fn done(mut c: Case) -> Case {
    c.nontrivial = Some(fnv(c.input.as_bytes()));
    c
}

fn any_char(r: &mut Rng) -> char {
    match r.below(8) {
        0 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
        1 => *r.pick(&['\0', '\u{1}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{ffff}', '\u{10ffff}', '\u{200b}', '\u{d7ff}', '\u{301}']),
        2 | 3 => *r.pick(&['"', '\'', '\\', '/', '*', '\n', '\r', '\t', '#', '{', '}', '[', ']', '(', ')', '<', '>', ';', ',', '.', '=', '-', '+', ':']),
        4 => (b'0' + r.below(10) as u8) as char,
        _ => (b' ' + r.below(95) as u8) as char,
    }
}

/// Characters and bytes without any order.
pub fn characters(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "characters", i);
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 10, 30, 100, 1000]);
    let text: String = if r.one_in(4) {
        let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        String::from_utf8_lossy(&b).into_owned()
    } else {
        (0..n).map(|_| any_char(&mut r)).collect()
    };
    let mut c = Case::new(text);
    about_to_try(&c.input);
    let name = *r.pick(&["f.proto", "", "/", "..", "a\0b", "\u{e9}", "x/../y", "C:\\x"]);
    let text = c.input.clone();
    try_parse(&mut c, name, &text, true);
    done(c)
}

/// Tokens without any order, with the usual beginnings of statements.
pub fn tokens(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "tokens", i);
    let n = *r.pick(&[3usize, 10, 30, 100, 400]);
    let mut text = String::new();
    const STARTS: &[&str] = &[
        "message M {", "enum E {", "service S {", "rpc A(B) returns (C) {", "extend X {", "oneof o {", "optional group G = 1 {", "option a =",
        "option (a) = {", "optional int32 f =", "reserved", "extensions", "map <", "[ default =", "import", "package", "syntax = \"proto3\";", "}", "}", "];",
        "/*", "*/", "//", "\"", "'\\",
    ];
    for _ in 0..n {
        text += if r.one_in(4) { r.pick(STARTS) } else { r.pick(cp::ALPHABET) };
        text += r.pick(&[" ", " ", " ", "", "\n", "\r\n", "\t"]);
    }
    let mut c = Case::new(text);
    about_to_try(&c.input);
    let text = c.input.clone();
    try_parse(&mut c, "f.proto", &text, r.one_in(4));
    done(c)
}

/// Good files, badly treated.
pub fn mutants(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "mutants", i);
    let mut text = match r.below(3) {
        0 => cp::corpus_mutant(env, "mutants", i, &cp::cfg_wild()),
        1 => gen::make(&mut r, &cp::cfg_wild()),
        _ => gen::make(&mut r, &cp::cfg_literals()),
    };
    for _ in 0..r.below(5) {
        text = gen::mutate_bytes(&mut r, &text);
    }
    if r.one_in(4) {
        text = text.chars().filter(|_| !r.one_in(50)).collect();
    }
    let mut c = Case::new(text);
    about_to_try(&c.input);
    let text = c.input.clone();
    try_parse(&mut c, "f.proto", &text, r.one_in(4));
    done(c)
}

/// Every text up to three characters of those that mean something to the lexer, alone and in places.
const FEW: &[&str] = &["\"", "'", "\\", "/", "*", "\n", "\r", "0", "8", "x", "e", "f", ".", "-", "+", "u", "U", "\u{e9}", "\0", "#", "{", "}", "[", "<", "(", ";", "inf", "\u{feff}", " ", "=", "_"];
const PLACES: &[&str] = &["@", "option a = @", "option a = \"@", "option a = {@", "// @", "/* @", "message M { @", "option a = {b: @;"];
pub fn short_len() -> u64 {
    let n = FEW.len() as u64;
    (n + n * n + n * n * n) * PLACES.len() as u64
}
pub fn short(_: &Env, i: u64) -> Case {
    let (mut k, p) = (i / PLACES.len() as u64, (i % PLACES.len() as u64) as usize);
    let n = FEW.len() as u64;
    let len = if k < n {
        1
    } else if k < n + n * n {
        k -= n;
        2
    } else {
        k -= n + n * n;
        3
    };
    let mut s = String::new();
    for _ in 0..len {
        s += FEW[(k % n) as usize];
        k /= n;
    }
    let mut c = Case::new(PLACES[p].replace('@', &s));
    about_to_try(&c.input);
    let text = c.input.clone();
    try_parse(&mut c, "f.proto", &text, false);
    done(c)
}

const NESTS: &[(&str, &str, &str, &str)] = &[
    // before, open, close, after
    ("", "message M { ", "} ", ""),
    ("message M { ", "optional group G = 1 { ", "} ", "}"),
    ("", "message M { optional group G = 1 { ", "} } ", ""),
    ("", "extend X { optional group G = 1 { ", "} } ", ""),
    ("message M { ", "oneof o { group G = 1 { ", "} } ", "}"),
    ("option a = { ", "a { ", "} ", "};"),
    ("option a = { ", "a: { ", "} ", "};"),
    ("option a = { ", "a < ", "> ", "};"),
    ("option a = { ", "a: < ", "> ", "};"),
    ("option a = { ", "a: [ { ", "} ] ", "};"),
    ("option a = { a: ", "[ ", "] ", "};"),
    ("option a = { ", "[a] { ", "} ", "};"),
    ("option a = { ", "[a/b] { ", "} ", "};"),
    ("option ", "( ", ") ", " = 1;"),
    ("option ", "(a).", "b", " = 1;"),
    ("message M { ", "map< ", "> ", " f = 1; }"),
    ("message M { optional int32 a = 1 ", "[ ", "] ", "; }"),
    ("enum E { ", "{ ", "} ", "}"),
    ("service S { ", "rpc A(B) returns (C) { ", "} ", "}"),
    ("service S { rpc A", "( ", ") ", "returns (C); }"),
    ("option a = ", "-", " ", "1;"),
    ("option a = ", "\"x\" ", "", ";"),
    ("", "/* ", "*/ ", ""),
    ("message M { ", "; ", "; ", "}"),
    ("import ", "\"a\" ", "", ";"),
    ("package a", ".a", "", ";"),
    ("message M { optional ", ".a", "", " b = 1; }"),
];
const DEPTHS: &[usize] = &[1, 2, 10, 31, 32, 33, 99, 100, 101, 127, 128, 129, 500, 3000, 30_000, 300_000];
pub fn nesting_len() -> u64 {
    (NESTS.len() * DEPTHS.len() * 3) as u64
}
/// One thing inside another, many times; closed, not closed, or closed wrongly.
pub fn nesting(_: &Env, i: u64) -> Case {
    let i = i as usize;
    let (n, d, end) = (i % NESTS.len(), DEPTHS[i / NESTS.len() % DEPTHS.len()], i / NESTS.len() / DEPTHS.len());
    let (a, open, close, z) = NESTS[n];
    let text = match end {
        0 => format!("{a}{}{}{z}", open.repeat(d), close.repeat(d)),
        1 => format!("{a}{}", open.repeat(d)),
        _ => format!("{a}{}{} @ {}{z}", open.repeat(d), close.repeat(d / 2), close.repeat(d)),
    };
    let mut c = Case::new(format!("{d} times {open:?} in {a:?}, end {end}"));
    about_to_try(&c.input);
    try_parse(&mut c, "f.proto", &text, d <= 3000);
    c.stat(format!("nested {}", if d > 1000 { "more than 1000 deep" } else { "less deep" }), 1);
    done(c)
}

/// Long inputs of one kind.
pub fn long(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "long", i);
    let n = if env.tier == Tier::Thorough { 16 << 20 } else { 1 << 20 };
    let unit: String = match r.below(4) {
        0 => (*r.pick(cp::ALPHABET)).to_owned() + " ",
        1 => any_char(&mut r).to_string(),
        2 => format!("{}\n", cp::SEEDS[r.below(cp::SEEDS.len())]),
        _ => (0..r.range(1, 6)).map(|_| format!("{} ", r.pick(cp::ALPHABET))).collect(),
    };
    let pre = *r.pick(&["", "message M { ", "option a = ", "option a = { ", "\"", "/*", "//", "enum E { "]);
    let text = format!("{pre}{}", unit.repeat(n / unit.len()));
    let mut c = Case::new(format!("{pre:?} and {} times {unit:?}", n / unit.len()));
    about_to_try(&c.input);
    try_parse(&mut c, "f.proto", &text, false);
    done(c)
}

/// Programs with something wrong in them.
pub fn programs(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "programs", i);
    let mut p = broken_program(&mut r, 4);
    for _ in 0..r.below(3) {
        let k = r.below(p.files.len());
        p.files[k].1 = if r.one_in(3) {
            gen::mutate_bytes(&mut r, &p.files[k].1)
        } else {
            mutate_tokens(&mut r, &p.files[k].1, &p.files)
        };
    }
    let mut c = Case::new(p.show());
    about_to_try(&c.input);
    try_compile(&mut c, Mem::of(&p), &p.roots, true);
    done(c)
}

/// Files that were made without regard to each other, and import each other.
pub fn strangers(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "strangers", i);
    let n = r.range(1, 4);
    let names = ["a.proto", "b.proto", "google/protobuf/descriptor.proto", "c.proto"];
    let mut files = BTreeMap::new();
    let mut shown = String::new();
    for k in 0..n {
        let mut t = gen::make(&mut r, &cp::cfg_valid());
        for j in 0..n {
            if j != k && r.one_in(3) {
                // where an import may stand: at the end
                t += &format!("\nimport {}\"{}\";", r.pick(&["", "public ", "weak "]), names[j]);
            }
        }
        shown += &format!("==== {}\n{t}\n", names[k]);
        files.insert(names[k].to_owned(), Entry::Source(t));
    }
    let mut c = Case::new(shown);
    about_to_try(&c.input);
    let roots: Vec<String> = names[..n].iter().map(|s| (*s).to_owned()).collect();
    let mem = Mem {
        files: Arc::new(files),
        ..Mem::default()
    };
    try_compile(&mut c, mem, &roots, true);
    done(c)
}

/// Graphs of imports that are deep or wide.
pub fn graphs(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "graphs", i);
    let n = if env.tier == Tier::Thorough { 100_000 } else { 20_000 };
    let kind = i % 4;
    let mut files = BTreeMap::new();
    let imp = *r.pick(&["import", "import public"]);
    let end = match r.below(4) {
        0 => "import \"absent.proto\";".to_owned(),
        1 => format!("import \"f{}.proto\";", r.below(n)),
        2 => "message 1".to_owned(),
        _ => String::new(),
    };
    for k in 0..n {
        let t = match kind {
            // a chain
            0 | 1 if k + 1 < n => format!("{imp} \"f{}.proto\";", k + 1),
            0 | 1 => end.clone(),
            // a tree
            2 => (1..3).map(|j| 2 * k + j).filter(|j| *j < n).map(|j| format!("{imp} \"f{j}.proto\";")).collect(),
            // one file imports all
            _ if k == 0 => (1..n).map(|j| format!("{imp} \"f{j}.proto\";")).collect::<String>() + &end,
            _ => String::new(),
        };
        files.insert(format!("f{k}.proto"), Entry::Source(t));
    }
    let mut c = Case::new(format!("{n} files, kind {kind}, {imp}, end {end:?}"));
    about_to_try(&c.input);
    let mem = Mem {
        files: Arc::new(files),
        ..Mem::default()
    };
    sut(|| {
        let mut k = Compiler::with_file_resolver(mem.chain());
        k.include_imports(true);
        match k.open_file("f0.proto") {
            Ok(_) => c.stat("large graphs compiled", 1),
            Err(e) => {
                c.stat("large graphs not compiled", 1);
                let _ = (e.to_string().len(), e.file().map(str::len));
            }
        }
        let _ = k.encode_file_descriptor_set();
    });
    done(c)
}

// ---- descriptors

fn some<T>(r: &mut Rng, v: T) -> Option<T> {
    if r.one_in(6) {
        None
    } else {
        Some(v)
    }
}
fn name(r: &mut Rng) -> Option<String> {
    let n = (*r.pick(&["A", "B", "C", "a", "b", "x_y", "A", "B", "c1", "", "A.B", ".A", "\u{e9}", "1", " ", "a-b"])).to_owned();
    if r.one_in(30) {
        return None;
    }
    Some(if r.one_in(3) { format!("N{}", r.below(20)) } else { n })
}
fn type_name(r: &mut Rng) -> String {
    (*r.pick(&["A", ".A", "B", ".B", ".A.B", "A.A", ".p.A", "p.B", "", ".", "..", "C", ".A.", "a b", "google.protobuf.Any", ".p", "\u{e9}", ".N1", "N2", ".p.N3"])).to_owned()
}
fn number(r: &mut Rng) -> i32 {
    *r.pick(&[1, 2, 3, 4, 5, 100, 0, -1, 19_000, 19_999, 536_870_911, 536_870_912, i32::MAX, i32::MIN, 18_999, 1000, 7, 8, 9])
}
fn options(r: &mut Rng) -> Vec<UninterpretedOption> {
    if !r.one_in(4) {
        return vec![];
    }
    (0..r.range(1, 2))
        .map(|_| UninterpretedOption {
            name: (0..r.below(4))
                .map(|_| NamePart {
                    name_part: (*r.pick(&["deprecated", "packed", "A", ".p.A", "", "map_entry", "message_set_wire_format", "x.y", "features", "uninterpreted_option", "allow_alias", "ctype", "o"])).to_owned(),
                    is_extension: r.one_in(3),
                })
                .collect(),
            identifier_value: r.one_in(3).then(|| (*r.pick(&["true", "false", "A", "", "inf", "nan", "CORD"])).to_owned()),
            positive_int_value: r.one_in(4).then(|| *r.pick(&[0, 1, u64::MAX, 1 << 31, 1 << 32])),
            negative_int_value: r.one_in(4).then(|| *r.pick(&[0, 1, -1, i64::MIN, i64::MAX])),
            double_value: r.one_in(4).then(|| *r.pick(&[0.0, -1.5, f64::NAN, f64::INFINITY, f64::MAX])),
            string_value: r.one_in(4).then(|| r.pick(&[&b""[..], b"abc", b"\xff\xfe", b"\0"]).to_vec()),
            aggregate_value: r.one_in(4).then(|| (*r.pick(&["", "a: 1", "{", "}", "a { b: 2 }", "a: \"\\xff\"", "[x.y/z] { }", "a: [1, 2", "\u{e9}", "# c", "a:1,b:2;", "[A]: 1", "A <>", "a: -", "a: 1e999"])).to_owned()),
        })
        .collect()
}
fn field(r: &mut Rng) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: name(r),
        number: if r.one_in(3) { Some(number(r)) } else { let n = r.range(1, 60) as i32; some(r, n) },
        label: { let n = *r.pick(&[1, 1, 1, 2, 3, 3, 0, 4, -1, i32::MAX]); some(r, n) },
        r#type: { let n = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 11, 12, 13, 14, 14, 15, 16, 17, 18, 0, 19, -1, i32::MIN]); some(r, n) },
        type_name: r.one_in(2).then(|| type_name(r)),
        extendee: r.one_in(3).then(|| type_name(r)),
        default_value: r.one_in(5).then(|| (*r.pick(&["", "1", "-1", "1e400", "true", "A", "x", "\\xff", "\\", "\\8", "nan", "-inf", "99999999999999999999", "\u{e9}", "0x10"])).to_owned()),
        oneof_index: r.one_in(5).then(|| *r.pick(&[0, 0, 1, 2, -1, i32::MAX, i32::MIN])),
        json_name: r.one_in(5).then(|| (*r.pick(&["", "a", "A", "\u{e9}", "[x]"])).to_owned()),
        proto3_optional: r.one_in(6).then(|| !r.one_in(4)),
        options: r.one_in(4).then(|| FieldOptions {
            ctype: r.one_in(5).then(|| *r.pick(&[0, 1, 2, 3, -1])),
            packed: r.one_in(3).then(|| r.one_in(2)),
            jstype: r.one_in(5).then(|| *r.pick(&[0, 1, 2, 9])),
            lazy: r.one_in(5).then_some(true),
            uninterpreted_option: options(r),
            ..Default::default()
        }),
    }
}
fn many<T>(r: &mut Rng, max: usize, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    (0..r.below(max + 1)).map(|_| f(r)).collect()
}
fn an_enum(r: &mut Rng) -> EnumDescriptorProto {
    EnumDescriptorProto {
        name: name(r),
        value: many(r, 4, |r| EnumValueDescriptorProto {
            name: name(r),
            number: { let n = *r.pick(&[0, 0, 1, 2, -1, i32::MAX, i32::MIN]); some(r, n) },
            options: r.one_in(6).then(|| EnumValueOptions { uninterpreted_option: options(r), ..Default::default() }),
        }),
        options: r.one_in(4).then(|| EnumOptions {
            allow_alias: r.one_in(2).then(|| r.one_in(2)),
            uninterpreted_option: options(r),
            ..Default::default()
        }),
        reserved_range: many(r, 2, |r| enum_descriptor_proto::EnumReservedRange { start: some_number(r), end: some_number(r) }),
        reserved_name: many(r, 2, |r| name(r).unwrap_or_default()),
    }
}
fn some_number(r: &mut Rng) -> Option<i32> {
    let n = number(r);
    some(r, n)
}
fn message(r: &mut Rng, depth: usize) -> DescriptorProto {
    DescriptorProto {
        name: name(r),
        field: many(r, 5, field),
        extension: if r.one_in(4) { many(r, 2, field) } else { vec![] },
        nested_type: if depth > 0 && r.one_in(3) { many(r, 3, |r| message(r, depth - 1)) } else { vec![] },
        enum_type: if r.one_in(3) { many(r, 2, an_enum) } else { vec![] },
        extension_range: if r.one_in(3) {
            many(r, 2, |r| descriptor_proto::ExtensionRange {
                start: some_number(r),
                end: some_number(r),
                options: r.one_in(3).then(|| ExtensionRangeOptions { uninterpreted_option: options(r) }),
            })
        } else {
            vec![]
        },
        oneof_decl: many(r, 2, |r| OneofDescriptorProto {
            name: name(r),
            options: r.one_in(4).then(|| OneofOptions { uninterpreted_option: options(r) }),
        }),
        options: r.one_in(3).then(|| MessageOptions {
            map_entry: r.one_in(2).then(|| !r.one_in(3)),
            message_set_wire_format: r.one_in(4).then_some(true),
            uninterpreted_option: options(r),
            ..Default::default()
        }),
        reserved_range: many(r, 2, |r| descriptor_proto::ReservedRange { start: some_number(r), end: some_number(r) }),
        reserved_name: many(r, 2, |r| name(r).unwrap_or_default()),
    }
}
fn a_file(r: &mut Rng, me: &str) -> FileDescriptorProto {
    let deps = ["a.proto", "b.proto", "google/protobuf/any.proto", "google/protobuf/descriptor.proto", "absent.proto", "", "c.proto"];
    FileDescriptorProto {
        name: Some(me.to_owned()),
        package: r.one_in(2).then(|| (*r.pick(&["", "p", "p", "p.q", ".p", "p.", "A", "\u{e9}", "p..q"])).to_owned()),
        dependency: if r.one_in(2) { many(r, 3, |r| { let all = r.one_in(5); (*r.pick(if all { &deps[..] } else { &deps[2..4] })).to_owned() }) } else { vec![] },
        public_dependency: many(r, 1, |r| *r.pick(&[0, 0, 1, 2, -1, i32::MAX, i32::MIN])),
        weak_dependency: many(r, 1, |r| *r.pick(&[0, 0, 1, -1, i32::MAX])),
        message_type: many(r, 4, |r| message(r, 2)),
        enum_type: many(r, 2, an_enum),
        service: many(r, 1, |r| ServiceDescriptorProto {
            name: name(r),
            method: many(r, 3, |r| MethodDescriptorProto {
                name: name(r),
                input_type: r.one_in(10).then(String::new).or_else(|| Some(type_name(r))),
                output_type: { let t = type_name(r); some(r, t) },
                client_streaming: r.one_in(3).then_some(true),
                server_streaming: r.one_in(3).then_some(false),
                options: r.one_in(4).then(|| MethodOptions { idempotency_level: Some(*r.pick(&[0, 1, 2, 3, -1])), uninterpreted_option: options(r), ..Default::default() }),
            }),
            options: r.one_in(4).then(|| ServiceOptions { uninterpreted_option: options(r), ..Default::default() }),
        }),
        extension: many(r, 2, field),
        options: r.one_in(3).then(|| FileOptions { optimize_for: r.one_in(3).then(|| *r.pick(&[0, 1, 3, 4, -1])), uninterpreted_option: options(r), ..Default::default() }),
        source_code_info: r.one_in(3).then(|| SourceCodeInfo {
            location: many(r, 6, |r| Location {
                path: many(r, 5, |r| *r.pick(&[4, 0, 2, 1, 5, 3, 8, 999, -1, i32::MAX, 12])),
                span: many(r, 5, |r| *r.pick(&[0, 1, 2, 3, 10, 1000, -1, i32::MAX, i32::MIN])),
                leading_comments: r.one_in(3).then(|| "c".to_owned()),
                trailing_comments: None,
                leading_detached_comments: vec![],
            }),
        }),
        syntax: r.one_in(2).then(|| (*r.pick(&["proto2", "proto3", "proto3", "proto2", "", "proto4", "editions"])).to_owned()),
    }
}

/// Descriptors that nothing sane would make.
pub fn descriptors(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "descriptors", i);
    let n = r.range(1, 3);
    let names = ["a.proto", "b.proto", "c.proto"];
    let set: Vec<FileDescriptorProto> = (0..n).map(|k| a_file(&mut r, names[k])).collect();
    let mut c = Case::new(format!("{set:#?}"));
    about_to_try(&c.input);
    let roots: Vec<String> = names[..n].iter().map(|s| (*s).to_owned()).collect();
    let encoded = FileDescriptorSet { file: set.clone() }.encode_to_vec();
    let form = r.below(3);
    let info = r.one_in(2);
    let files = set
        .into_iter()
        .map(|f| (f.name().to_owned(), if form == 0 { Entry::Proto(f) } else { Entry::Encoded(f.encode_to_vec()) }))
        .collect();
    if form == 2 {
        sut(|| {
            if let Ok(s) = DescriptorSetFileResolver::decode(encoded.as_slice()) {
                let mut k = Compiler::with_file_resolver(s);
                k.include_imports(true).include_source_info(info);
                for f in &roots {
                    match k.open_file(f) {
                        Ok(_) => c.stat("files compiled", 1),
                        Err(e) => {
                            c.stat("files not compiled", 1);
                            render(&e, false, &mut c);
                        }
                    }
                }
                let _ = (k.file_descriptor_set(), k.encode_file_descriptor_set());
            }
        });
    } else {
        let mem = Mem {
            files: Arc::new(files),
            ..Mem::default()
        };
        try_compile(&mut c, mem, &roots, info);
    }
    done(c)
}

/// Bytes without any order as descriptors.
pub fn bytes(env: &Env, i: u64) -> Case {
    let mut r = rng(env, "bytes", i);
    let n = *r.pick(&[0usize, 1, 2, 5, 20, 100, 1000]);
    let mut b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    if r.one_in(2) {
        // tags of the fields of a file, and small lengths
        for x in b.iter_mut() {
            if r.one_in(2) {
                *x = *r.pick(&[0x0a, 0x12, 0x1a, 0x22, 0x2a, 0x32, 0x3a, 0x42, 0x4a, 0x50, 0x58, 0x62, 1, 2, 3, 4, 8, 0x80, 0xff]);
            }
        }
    }
    if r.one_in(8) {
        // a file like any other, with a few bytes changed
        b = a_file(&mut r, "a.proto").encode_to_vec();
        if r.one_in(3) {
            b = FileDescriptorProto {
                name: Some("a.proto".to_owned()),
                message_type: vec![DescriptorProto {
                    name: Some("M".to_owned()),
                    ..Default::default()
                }],
                ..Default::default()
            }
            .encode_to_vec();
        }
        for _ in 0..r.below(4) {
            let k = r.below(b.len());
            b[k] = r.next() as u8;
        }
    }
    if r.one_in(20) {
        // groups in groups, messages in messages
        let d = *r.pick(&[50usize, 99, 100, 101, 1000, 100_000]);
        b = match r.below(3) {
            0 => vec![0x0b; d],
            1 => [vec![0x0b; d], vec![0x0c; d]].concat(),
            _ => {
                let mut x: Vec<u8> = vec![];
                for _ in 0..d.min(2000) {
                    let mut y = vec![0x1a];
                    prost::encoding::encode_varint(x.len() as u64, &mut y);
                    y.extend(&x);
                    x = y;
                }
                let mut y = vec![0x22];
                prost::encoding::encode_varint(x.len() as u64, &mut y);
                y.extend(&x);
                y
            }
        };
    }
    let mut c = Case::new(format!("{:?}", &b[..b.len().min(3000)]));
    about_to_try(&c.input);
    sut(|| {
        match DescriptorSetFileResolver::decode(b.as_slice()) {
            Ok(s) => {
                c.stat("byte strings read as sets", 1);
                let mut k = Compiler::with_file_resolver(s);
                let _ = k.open_file("");
                let _ = k.open_file("a.proto");
            }
            Err(e) => {
                let _ = e.to_string();
                c.stat("byte strings that are no set", 1);
            }
        }
        if let Ok(f) = File::decode_file_descriptor_proto(b.as_slice()) {
            let n = f.name().to_owned();
            let f = f.file_descriptor_proto().clone();
            let mem = Mem {
                files: Arc::new([(n.clone(), Entry::Encoded(b.clone()))].into_iter().collect()),
                ..Mem::default()
            };
            let _ = f;
            let mut k = Compiler::with_file_resolver(mem.chain());
            match k.open_file(&n) {
                Ok(_) => c.stat("byte strings compiled", 1),
                Err(_) => c.stat("byte strings that are a file, not compiled", 1),
            }
        }
    });
    done(c)
}

/// What once brought the process down, tried in one of its own.
pub const FIXED: &[(&str, &str)] = &[("a very deep aggregate option", "deep"), ("an error far into a very long line", "wide")];
pub fn fixed(_: &Env, i: u64) -> Case {
    let (what, arg) = FIXED[i as usize];
    let mut c = Case::new(format!("{what}: vmon down {arg}"));
    about_to_try(&c.input);
    let o = Command::new(std::env::current_exe().unwrap()).args(["down", arg]).output().expect("a process");
    if !o.status.success() {
        c.diffs.push(diff(Facet::Crash, format!("[{what}] the process ends with {}", o.status)));
    }
    done(c)
}
/// The other process.
pub fn down(arg: &str) {
    limits(8, Some(60));
    if arg == "wide" {
        let e = protox_parse::parse("a.proto", &format!("{}1", ";".repeat(100_000))).expect_err("an error");
        return graphical(&e);
    }
    assert_eq!(arg, "deep");
    let d = 50_000;
    let text = format!(
        "import \"google/protobuf/descriptor.proto\"; message M {{ optional M a = 1; }} extend google.protobuf.FileOptions {{ optional M o = 50000; }} option (o) = {{ {} {} }};",
        "a { ".repeat(d),
        "} ".repeat(d)
    );
    let mem = Mem {
        files: Arc::new([("a.proto".to_owned(), Entry::Source(text))].into_iter().collect()),
        ..Mem::default()
    };
    let t = std::thread::Builder::new().stack_size(crate::drive::stack()).spawn(move || {
        let mut k = Compiler::with_file_resolver(mem.chain());
        let _ = k.open_file("a.proto").map(|_| ());
    });
    t.unwrap().join().unwrap();
}
