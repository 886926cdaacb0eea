//! Reference model of the .proto language: a recursive-descent recogniser over the reference
//! lexer's token array which produces the FileDescriptorProto (with source info) the language
//! specification and protoc's documentation call for, or the set of errors that may be reported.
//! Independent of the code under test; validated against protoc (see `vmon selfcheck`).

use crate::lex::{self, gap, Gap, K};
#[allow(unused_imports)]
use std::option::Option::{self, None, Some};
use prost_types::*;
use prost_types::{
    descriptor_proto::{ExtensionRange, ReservedRange},
    enum_descriptor_proto::EnumReservedRange,
    field_descriptor_proto::{Label, Type},
    source_code_info::Location,
    uninterpreted_option::NamePart,
};

pub const MAX_NUM: i32 = 536_870_911;
pub const MAX_DEPTH: usize = 31;

#[derive(Clone, Debug)]
pub struct Exp {
    /// `None`: reported without a span (end of file).
    pub span: Option<(usize, usize)>,
    /// The reported span is exactly `span`, rather than somewhere in it.
    pub exact: bool,
    /// Part of the message.
    pub kind: &'static str,
    /// Further text the message or help must contain.
    pub detail: String,
    pub class: Class,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Lexical,
    Syntax,
    /// Import paths, duplicate packages, names in strings
    Names,
    Number,
    Label,
    Kind,
    Default,
    OptionValue,
    Nesting,
}

pub struct Model {
    pub verdict: Verdict,
    /// The specification leaves this file's meaning open: no verdict.
    pub gray: bool,
    pub ntoks: usize,
    pub ncomments: usize,
    /// Byte spans of the sections that may not be compared for comments (around empty statements).
    pub fuzzy_comments: bool,
    /// Declarations seen, by kind.
    pub decls: std::collections::BTreeMap<&'static str, usize>,
    /// Comments attached to some declaration
    pub attached: usize,
}

pub enum Verdict {
    Accept(Box<FileDescriptorProto>),
    Reject(Vec<Exp>),
}

type R<T> = Result<T, ()>;

#[derive(Clone, Copy, PartialEq)]
enum Scope {
    Msg,
    Oneof,
    Extend,
}

#[derive(Clone)]
enum Val {
    Ident { neg: bool, name: String },
    Int { neg: bool, v: u64 },
    Float(f64),
    Str(Vec<u8>),
    Agg(String),
}

#[derive(Clone)]
struct Opt {
    name: Vec<NamePart>,
    val: Val,
    span: (usize, usize),
    vspan: (usize, usize),
}

#[derive(Clone, Copy)]
struct IntT {
    neg: bool,
    v: u64,
    s: usize,
    e: usize,
}

impl IntT {
    fn wide(&self) -> i128 {
        if self.neg {
            -(self.v as i128)
        } else {
            self.v as i128
        }
    }
    fn i32(&self) -> Option<i32> {
        i32::try_from(self.wide()).ok()
    }
}

struct P<'a> {
    src: &'a str,
    lx: lex::Lexed,
    i: usize,
    lines: Vec<usize>,
    locs: Vec<Location>,
    /// Errors found while reading, in order; the last is fatal if the reader stopped
    errs: Vec<Exp>,
    /// Errors of meaning, reported only if the file could be read
    sem: Vec<Exp>,
    proto3: bool,
    agg: Vec<(usize, usize)>,
    gray: bool,
    fuzzy: bool,
    depth: usize,
    decls: std::collections::BTreeMap<&'static str, usize>,
    attached: usize,
    file_start: usize,
}

const SCALARS: &[(&str, Type)] = &[
    ("double", Type::Double),
    ("float", Type::Float),
    ("int32", Type::Int32),
    ("int64", Type::Int64),
    ("uint32", Type::Uint32),
    ("uint64", Type::Uint64),
    ("sint32", Type::Sint32),
    ("sint64", Type::Sint64),
    ("fixed32", Type::Fixed32),
    ("fixed64", Type::Fixed64),
    ("sfixed32", Type::Sfixed32),
    ("sfixed64", Type::Sfixed64),
    ("bool", Type::Bool),
    ("string", Type::String),
    ("bytes", Type::Bytes),
];

pub fn scalar(name: &str) -> Option<Type> {
    SCALARS.iter().find(|s| s.0 == name).map(|s| s.1)
}

enum Ty {
    Scalar(Type),
    Named(String),
}

/// Nested declarations of a message, or the whole file, under construction.
#[derive(Default)]
struct Body {
    d: DescriptorProto,
    real_oneofs: usize,
    synth: Vec<usize>, // field indexes with a synthetic oneof
}

pub fn model(name: &str, src: &str) -> Model {
    let lx = lex::lex(src);
    let lines = std::iter::once(0)
        .chain(src.match_indices('\n').map(|(i, _)| i + 1))
        .collect();
    let mut p = P {
        src,
        i: 0,
        lines,
        locs: vec![],
        errs: vec![],
        sem: vec![],
        proto3: false,
        agg: vec![],
        gray: lx.gray,
        fuzzy: false,
        depth: 0,
        decls: Default::default(),
        attached: 0,
        file_start: if src.starts_with(lex::BOM) { 3 } else { 0 },
        lx,
    };
    let file = p.file(name);
    let mut errs = std::mem::take(&mut p.errs);
    // Lexical errors up to the point where the reader stopped (or everywhere)
    let stop = match (&file, errs.last()) {
        // the token after the one in error may have been read too
        (Err(()), Some(_)) => p.lx.toks.get(p.i).map_or(usize::MAX, |t| t.e),
        _ => usize::MAX,
    };
    for e in &p.lx.errs {
        if e.s <= stop {
            errs.push(Exp {
                span: (!e.eof).then_some((e.s, e.e)),
                exact: false,
                kind: e.kind,
                detail: String::new(),
                class: Class::Lexical,
            });
        }
    }
    for &(s, e) in &p.lx.hashes {
        if s <= stop && !p.agg.iter().any(|a| a.0 <= s && s < a.1) {
            errs.push(Exp {
                span: Some((s, e)),
                exact: false,
                kind: "comments are not allowed here",
                detail: String::new(),
                class: Class::Lexical,
            });
        }
    }
    for t in &p.lx.toks {
        if t.k == K::Bad && t.s <= stop && !errs.is_empty() {
            errs.push(Exp {
                span: Some((t.s, t.e)),
                exact: false,
                kind: "invalid token",
                detail: String::new(),
                class: Class::Lexical,
            });
        }
        if t.fsuffix && t.s <= stop && !p.agg.iter().any(|a| a.0 <= t.s && t.s < a.1) {
            errs.push(Exp {
                span: Some((t.s, t.e)),
                exact: false,
                kind: "suffix for float literals",
                detail: String::new(),
                class: Class::Lexical,
            });
        }
    }
    let verdict = if !errs.is_empty() {
        Verdict::Reject(errs)
    } else if !p.sem.is_empty() {
        Verdict::Reject(p.sem)
    } else {
        let mut f = file.expect("no error but no file");
        f.source_code_info = Some(SourceCodeInfo { location: p.locs });
        Verdict::Accept(Box::new(f))
    };
    Model {
        verdict,
        gray: p.gray,
        ntoks: p.lx.toks.len(),
        ncomments: p.lx.comments,
        fuzzy_comments: p.fuzzy,
        decls: p.decls,
        attached: p.attached,
    }
}

fn pascal(name: &str) -> String {
    name.split('_')
        .filter(|s| !s.is_empty())
        .map(|s| {
            let mut c = s.chars();
            let f = c.next().unwrap().to_ascii_uppercase();
            std::iter::once(f).chain(c).collect::<String>()
        })
        .collect()
}

pub fn c_escape(v: &[u8]) -> String {
    let mut o = String::new();
    for &c in v {
        match c {
            b'\n' => o += "\\n",
            b'\r' => o += "\\r",
            b'\t' => o += "\\t",
            b'"' => o += "\\\"",
            b'\'' => o += "\\'",
            b'\\' => o += "\\\\",
            32..=126 => o.push(c as char),
            _ => {
                o.push('\\');
                o.push((b'0' + (c >> 6)) as char);
                o.push((b'0' + ((c >> 3) & 7)) as char);
                o.push((b'0' + (c & 7)) as char);
            }
        }
    }
    o
}

fn valid_ident(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && !b[0].is_ascii_digit()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

fn valid_import(s: &str) -> bool {
    !s.is_empty()
        && !s.contains('\\')
        && s.split('/').all(|c| !matches!(c, "" | "." | ".."))
}

impl<'a> P<'a> {
    // ---- tokens
    fn id(&self, i: usize) -> Option<&'a str> {
        let t = self.lx.toks.get(i)?;
        (t.k == K::Id).then(|| &self.src[t.s..t.e])
    }
    fn is(&self, kw: &str) -> bool {
        self.id(self.i) == Some(kw)
    }
    fn sym(&self, c: u8) -> bool {
        matches!(self.lx.toks.get(self.i), Some(t) if t.k == K::Sym(c))
    }
    fn span(&self, i: usize) -> (usize, usize) {
        let t = &self.lx.toks[i];
        (t.s, t.e)
    }
    fn k(&self) -> Option<&K> {
        self.lx.toks.get(self.i).map(|t| &t.k)
    }
    fn unexpected<T>(&mut self) -> R<T> {
        match self.lx.toks.get(self.i) {
            Some(t) if t.k == K::Bad => self.errs.push(Exp {
                span: Some((t.s, t.e)),
                exact: false,
                kind: "invalid token",
                detail: String::new(),
                class: Class::Lexical,
            }),
            Some(t) => self.errs.push(Exp {
                span: Some((t.s, t.e)),
                exact: true,
                kind: "but found",
                detail: String::new(),
                class: Class::Syntax,
            }),
            None => self.errs.push(Exp {
                span: None,
                exact: true,
                kind: "end of file",
                detail: String::new(),
                class: Class::Syntax,
            }),
        }
        Err(())
    }
    fn ident(&mut self) -> R<(String, (usize, usize))> {
        match self.id(self.i) {
            Some(s) => {
                self.i += 1;
                Ok((s.to_owned(), self.span(self.i - 1)))
            }
            None => self.unexpected(),
        }
    }
    fn expect(&mut self, c: u8) -> R<(usize, usize)> {
        if self.sym(c) {
            self.i += 1;
            Ok(self.span(self.i - 1))
        } else {
            self.unexpected()
        }
    }
    fn int(&mut self) -> R<IntT> {
        let s = self.i;
        let neg = self.sym(b'-');
        if neg {
            self.i += 1;
        }
        match self.k() {
            Some(&K::Int(v)) => {
                self.i += 1;
                Ok(IntT {
                    neg,
                    v,
                    s: self.span(s).0,
                    e: self.span(self.i - 1).1,
                })
            }
            _ => self.unexpected(),
        }
    }
    fn is_str(&self) -> bool {
        matches!(self.k(), Some(K::Str(_)))
    }
    /// One or more adjacent string literals.
    fn string(&mut self) -> R<(Vec<u8>, (usize, usize))> {
        if !self.is_str() {
            return self.unexpected();
        }
        let s = self.i;
        let mut v = vec![];
        while let Some(K::Str(x)) = self.k() {
            v.extend_from_slice(x);
            self.i += 1;
        }
        Ok((v, (self.span(s).0, self.span(self.i - 1).1)))
    }
    fn utf8(&mut self) -> R<(String, (usize, usize))> {
        let (v, sp) = self.string()?;
        match String::from_utf8(v) {
            Ok(s) => Ok((s, sp)),
            Err(e) => {
                self.err(sp, "not valid utf-8", Class::Names);
                Ok((String::from_utf8_lossy(e.as_bytes()).into_owned(), sp))
            }
        }
    }
    fn err(&mut self, sp: (usize, usize), kind: &'static str, class: Class) {
        self.errs.push(Exp {
            span: Some(sp),
            exact: true,
            kind,
            detail: String::new(),
            class,
        })
    }
    fn sem(&mut self, sp: (usize, usize), kind: &'static str, class: Class) {
        self.sem_d(sp, kind, class, String::new())
    }
    fn sem_d(&mut self, sp: (usize, usize), kind: &'static str, class: Class, detail: String) {
        self.sem.push(Exp {
            span: Some(sp),
            exact: true,
            kind,
            detail,
            class,
        })
    }
    fn seen(&mut self, what: &'static str) {
        *self.decls.entry(what).or_default() += 1;
    }

    // ---- locations
    fn lc(&self, off: usize) -> (i32, i32) {
        let l = self.lines.partition_point(|&s| s <= off) - 1;
        (l as i32, (off - self.lines[l]) as i32)
    }
    fn loc_span(&self, sp: (usize, usize)) -> Vec<i32> {
        let (a, b) = self.lc(sp.0);
        let (c, d) = self.lc(sp.1);
        if a == c {
            vec![a, b, d]
        } else {
            vec![a, b, c, d]
        }
    }
    fn loc(&mut self, path: &[i32], sp: (usize, usize)) {
        let span = self.loc_span(sp);
        self.locs.push(Location {
            path: path.to_vec(),
            span,
            ..Default::default()
        });
    }
    /// Location of a declaration starting at token `first`, with its comments; `head` is the
    /// token after which a trailing comment may stand (the `;` or the opening brace).
    fn decl(&mut self, path: &[i32], sp: (usize, usize), first: usize, head: usize) {
        let before = self.gap_before(first);
        let after = self.gap_before(head + 1);
        let span = self.loc_span(sp);
        self.attached += before.detached.len()
            + before.leading.is_some() as usize
            + after.trailing.is_some() as usize;
        self.locs.push(Location {
            path: path.to_vec(),
            span,
            leading_comments: before.leading,
            trailing_comments: after.trailing,
            leading_detached_comments: before.detached,
        });
    }
    fn gap_before(&self, i: usize) -> Gap {
        let from = if i == 0 {
            self.file_start
        } else {
            self.lx.toks[i - 1].e
        };
        let (to, closes) = match self.lx.toks.get(i) {
            Some(t) => (t.s, matches!(t.k, K::Sym(b'}' | b']' | b')'))),
            None => (self.src.len(), true),
        };
        gap(&self.src[from..to.max(from)], i == 0, closes)
    }
    /// An empty statement at token `i`: protoc carries comments before it over to the next
    /// declaration, others drop them; comments are not compared in a file that has some there.
    fn empty_stmt(&mut self) {
        let i = self.i;
        let g = self.gap_before(i);
        if !g.detached.is_empty() || g.leading.is_some() {
            self.fuzzy = true;
        }
        self.i += 1;
        self.seen("empty statement");
    }

    // ---- file
    fn file(&mut self, name: &str) -> R<FileDescriptorProto> {
        let mut f = FileDescriptorProto {
            name: Some(name.to_owned()),
            ..Default::default()
        };
        let n = self.lx.toks.len();
        if self.is("syntax") {
            let s = self.i;
            self.i += 1;
            self.expect(b'=')?;
            let (v, sp) = self.string()?;
            match v.as_slice() {
                b"proto2" => (),
                b"proto3" => self.proto3 = true,
                _ => {
                    self.err(sp, "unknown syntax", Class::Syntax);
                    return Err(());
                }
            }
            let e = self.expect(b';')?;
            let head = self.i - 1;
            let st = self.span(s).0;
            self.decl(&[12], (st, e.1), s, head);
            self.seen("syntax");
            if self.proto3 {
                f.syntax = Some("proto3".into());
            }
        }
        let mut pkg: Option<(usize, usize)> = None;
        let mut opts: Vec<(Opt, usize, usize, (usize, usize))> = vec![];
        let mut root = Body::default(); // message_type in nested_type, and so on
        while self.i < n {
            let s = self.i;
            let st = self.span(s).0;
            match self.id(s) {
                None if self.sym(b';') => self.empty_stmt(),
                Some("import") => {
                    self.i += 1;
                    let mut kind = None;
                    if let Some(k @ ("weak" | "public")) = self.id(self.i) {
                        kind = Some((k, self.span(self.i)));
                        self.i += 1;
                    }
                    let (v, sp) = self.utf8()?;
                    if !valid_import(&v) {
                        self.err(sp, "invalid", Class::Names);
                    }
                    let e = self.expect(b';')?;
                    let head = self.i - 1;
                    let idx = f.dependency.len() as i32;
                    self.decl(&[3, idx], (st, e.1), s, head);
                    match kind {
                        Some(("public", sp)) => {
                            self.loc(&[10, f.public_dependency.len() as i32], sp);
                            f.public_dependency.push(idx)
                        }
                        Some((_, sp)) => {
                            self.loc(&[11, f.weak_dependency.len() as i32], sp);
                            f.weak_dependency.push(idx)
                        }
                        None => (),
                    }
                    f.dependency.push(v);
                    self.seen("import");
                }
                Some("package") => {
                    self.i += 1;
                    let (name, _) = self.full_ident()?;
                    let e = self.expect(b';')?;
                    let head = self.i - 1;
                    let sp = (st, e.1);
                    if pkg.is_some() {
                        // reported without a primary span, labelling both
                        self.errs.push(Exp {
                            span: None,
                            exact: true,
                            kind: "multiple package",
                            detail: String::new(),
                            class: Class::Names,
                        });
                    } else {
                        pkg = Some(sp);
                        self.decl(&[2], sp, s, head);
                        f.package = Some(name);
                        self.seen("package");
                    }
                }
                Some("option") => opts.push(self.option_stmt()?),
                Some("extend") => {
                    let mut ext = std::mem::take(&mut f.extension);
                    self.extend(&[], 7, 4, &mut ext, &mut root.d.nested_type)?;
                    f.extension = ext;
                }
                Some("message") => {
                    let idx = root.d.nested_type.len() as i32;
                    let m = self.message(&[4, idx])?;
                    root.d.nested_type.push(m);
                }
                Some("enum") => {
                    let e = self.enum_(&[5, f.enum_type.len() as i32])?;
                    f.enum_type.push(e);
                }
                Some("service") => {
                    let e = self.service(&[6, f.service.len() as i32])?;
                    f.service.push(e);
                }
                _ => return self.unexpected(),
            }
        }
        f.message_type = root.d.nested_type;
        f.options = self
            .options(&[8], opts)
            .map(|uninterpreted_option| FileOptions {
                uninterpreted_option,
                ..Default::default()
            });
        let sp = if n == 0 {
            (self.src.len(), 0)
        } else {
            (self.span(0).0, self.span(n - 1).1)
        };
        self.loc(&[], sp);
        Ok(f)
    }

    fn full_ident(&mut self) -> R<(String, (usize, usize))> {
        let (mut s, mut sp) = self.ident()?;
        while self.sym(b'.') {
            self.i += 1;
            let (t, tsp) = self.ident()?;
            s.push('.');
            s += &t;
            sp.1 = tsp.1;
        }
        Ok((s, sp))
    }
    fn type_name(&mut self) -> R<(String, (usize, usize))> {
        if self.sym(b'.') {
            let st = self.span(self.i).0;
            self.i += 1;
            let (s, sp) = self.full_ident()?;
            Ok((format!(".{s}"), (st, sp.1)))
        } else {
            self.full_ident()
        }
    }
    fn ty(&mut self) -> R<(Ty, (usize, usize))> {
        if let Some(t) = self.id(self.i).and_then(scalar) {
            self.i += 1;
            return Ok((Ty::Scalar(t), self.span(self.i - 1)));
        }
        let (n, sp) = self.type_name()?;
        Ok((Ty::Named(n), sp))
    }

    // ---- options
    fn option_body(&mut self) -> R<Opt> {
        let s = self.i;
        let mut name = vec![];
        loop {
            if self.sym(b'(') {
                self.i += 1;
                let (n, _) = self.type_name()?;
                self.expect(b')')?;
                name.push(NamePart {
                    name_part: n,
                    is_extension: true,
                });
            } else {
                let (n, _) = self.ident()?;
                name.push(NamePart {
                    name_part: n,
                    is_extension: false,
                });
            }
            if self.sym(b'.') {
                self.i += 1;
            } else {
                self.expect(b'=')?;
                break;
            }
        }
        let v = self.i;
        let neg = self.sym(b'-');
        if neg {
            self.i += 1;
        }
        let val = match self.k().cloned() {
            Some(K::Id) => Val::Ident {
                neg,
                name: self.ident()?.0,
            },
            Some(K::Int(x)) => {
                self.i += 1;
                Val::Int { neg, v: x }
            }
            Some(K::Float(x)) => {
                self.i += 1;
                Val::Float(if neg { -x } else { x })
            }
            Some(K::Str(_)) if !neg => Val::Str(self.string()?.0),
            Some(K::Sym(b'{')) if !neg => {
                let open = self.span(self.i).1;
                self.i += 1;
                let mut depth = 0;
                let mut out: Vec<String> = vec![];
                let close = loop {
                    match self.k() {
                        None => {
                            self.agg.push((open, self.src.len()));
                            return self.unexpected();
                        }
                        Some(K::Bad) => {
                            self.agg.push((open, self.src.len()));
                            return self.unexpected();
                        }
                        Some(K::Sym(b'{')) => depth += 1,
                        Some(K::Sym(b'}')) if depth == 0 => {
                            self.i += 1;
                            break self.span(self.i - 1).0;
                        }
                        Some(K::Sym(b'}')) => depth -= 1,
                        _ => (),
                    }
                    out.push(canon(&self.lx.toks[self.i], self.src));
                    self.i += 1;
                };
                self.agg.push((open, close));
                Val::Agg(format!("\u{2}{}", out.join("\u{1}")))
            }
            _ => return self.unexpected(),
        };
        let e = self.span(self.i - 1).1;
        Ok(Opt {
            name,
            val,
            span: (self.span(s).0, e),
            vspan: (self.span(v).0, e),
        })
    }
    /// `option ... ;`: (option, first token, head token, span)
    fn option_stmt(&mut self) -> R<(Opt, usize, usize, (usize, usize))> {
        let s = self.i;
        self.i += 1;
        let o = self.option_body()?;
        let e = self.expect(b';')?;
        self.seen("option statement");
        Ok((o, s, self.i - 1, (self.span(s).0, e.1)))
    }
    fn options(
        &mut self,
        path: &[i32],
        opts: Vec<(Opt, usize, usize, (usize, usize))>,
    ) -> Option<Vec<UninterpretedOption>> {
        let mut v = vec![];
        for (o, first, head, sp) in opts {
            self.loc(path, sp);
            self.decl(&join(path, &[999, v.len() as i32]), sp, first, head);
            v.push(self.uninterpreted(o));
        }
        (!v.is_empty()).then_some(v)
    }
    /// `[a = b, ...]`: (options, span)
    fn option_list(&mut self) -> R<Option<(Vec<Opt>, (usize, usize))>> {
        if !self.sym(b'[') {
            return Ok(None);
        }
        let s = self.span(self.i).0;
        self.i += 1;
        let mut v = vec![self.option_body()?];
        while self.sym(b',') {
            self.i += 1;
            v.push(self.option_body()?);
        }
        let e = self.expect(b']')?;
        self.seen("option list");
        Ok(Some((v, (s, e.1))))
    }
    fn options_of_list(
        &mut self,
        path: &[i32],
        list: Option<(Vec<Opt>, (usize, usize))>,
    ) -> Option<Vec<UninterpretedOption>> {
        let (opts, sp) = list?;
        self.loc(path, sp);
        let mut v = vec![];
        for o in opts {
            self.loc(&join(path, &[999, v.len() as i32]), o.span);
            v.push(self.uninterpreted(o));
        }
        (!v.is_empty()).then_some(v)
    }
    fn uninterpreted(&mut self, o: Opt) -> UninterpretedOption {
        let mut u = UninterpretedOption {
            name: o.name,
            ..Default::default()
        };
        match o.val {
            Val::Ident { neg: false, name } => u.identifier_value = Some(name),
            Val::Ident { .. } => self.sem(
                o.vspan,
                "identifiers may not be negative",
                Class::OptionValue,
            ),
            Val::Int { neg: false, v } => u.positive_int_value = Some(v),
            Val::Int { v, .. } => {
                if v > 1 << 63 {
                    self.sem(o.vspan, "out of range", Class::OptionValue);
                } else {
                    u.negative_int_value = Some((-(v as i128)) as i64);
                }
            }
            Val::Float(f) => u.double_value = Some(f),
            Val::Str(s) => u.string_value = Some(s),
            Val::Agg(s) => u.aggregate_value = Some(s),
        }
        u
    }

    // ---- messages
    fn message(&mut self, path: &[i32]) -> R<DescriptorProto> {
        let s = self.i;
        self.i += 1;
        let (name, nsp) = self.ident()?;
        self.expect(b'{')?;
        let head = self.i - 1;
        let mut d = self.body(path, nsp)?;
        let sp = (self.span(s).0, self.span(self.i - 1).1);
        self.decl(path, sp, s, head);
        self.loc(&join(path, &[1]), nsp);
        d.name = Some(name);
        self.seen("message");
        Ok(d)
    }

    fn body(&mut self, path: &[i32], name: (usize, usize)) -> R<DescriptorProto> {
        if self.depth >= MAX_DEPTH {
            self.err(name, "nested too deeply", Class::Nesting);
            return Err(());
        }
        self.depth += 1;
        let r = self.body_inner(path);
        self.depth -= 1;
        r
    }

    fn body_inner(&mut self, path: &[i32]) -> R<DescriptorProto> {
        let mut b = Body::default();
        let mut opts = vec![];
        // (is names, numbers, names, span, first, head)
        let mut reserved: Vec<(
            Vec<(IntT, IntT, bool)>,
            Vec<(String, (usize, usize))>,
            (usize, usize),
            usize,
            usize,
        )> = vec![];
        let mut extensions: Vec<(
            Vec<(IntT, IntT, bool)>,
            Option<(Vec<Opt>, (usize, usize))>,
            (usize, usize),
            usize,
            usize,
        )> = vec![];
        loop {
            let s = self.i;
            match self.id(s) {
                Some("oneof") => self.oneof(path, &mut b)?,
                Some("enum") => {
                    let e = self.enum_(&join(path, &[4, b.d.enum_type.len() as i32]))?;
                    b.d.enum_type.push(e);
                }
                Some("message") => {
                    let m = self.message(&join(path, &[3, b.d.nested_type.len() as i32]))?;
                    b.d.nested_type.push(m);
                }
                Some("extend") => {
                    let mut ext = std::mem::take(&mut b.d.extension);
                    self.extend(path, 6, 3, &mut ext, &mut b.d.nested_type)?;
                    b.d.extension = ext;
                }
                Some("option") => opts.push(self.option_stmt()?),
                Some("reserved") => {
                    self.i += 1;
                    let (mut ranges, mut names) = (vec![], vec![]);
                    if self.is_str() {
                        loop {
                            let (n, sp) = self.utf8()?;
                            if !valid_ident(&n) {
                                self.err(sp, "invalid identifier", Class::Names);
                            }
                            names.push((n, sp));
                            if !self.sym(b',') {
                                break;
                            }
                            self.i += 1;
                        }
                    } else {
                        ranges = self.ranges()?;
                    }
                    let e = self.expect(b';')?;
                    let head = self.i - 1;
                    reserved.push((ranges, names, (self.span(s).0, e.1), s, head));
                    self.seen("reserved");
                }
                Some("extensions") => {
                    self.i += 1;
                    let ranges = self.ranges()?;
                    let list = self.option_list()?;
                    let e = self.expect(b';')?;
                    let head = self.i - 1;
                    extensions.push((ranges, list, (self.span(s).0, e.1), s, head));
                    self.seen("extensions");
                }
                Some(_) => self.field(path, 2, 3, Scope::Msg, FieldDst::Body(&mut b))?,
                None if self.sym(b'.') => {
                    self.field(path, 2, 3, Scope::Msg, FieldDst::Body(&mut b))?
                }
                None if self.sym(b';') => self.empty_stmt(),
                None if self.sym(b'}') => {
                    self.i += 1;
                    break;
                }
                None => return self.unexpected(),
            }
        }
        let end = self.i;

        // Synthetic oneofs come after the real ones, under names no field or oneof has
        let mut names: std::collections::HashSet<String> = b
            .d
            .field
            .iter()
            .map(|f| f.name().to_owned())
            .chain(b.d.oneof_decl.iter().map(|o| o.name().to_owned()))
            .collect();
        // (fields of the same name, an error later, share theirs, or time would grow without end)
        let mut taken: std::collections::HashMap<String, String> = Default::default();
        for &fi in &b.synth {
            let f = &mut b.d.field[fi];
            f.oneof_index = Some(b.d.oneof_decl.len() as i32);
            let mut n = f.name().to_owned();
            if let Some(t) = taken.get(&n) {
                n = t.clone();
            } else {
                if !n.starts_with('_') {
                    n.insert(0, '_');
                }
                while !names.insert(n.clone()) {
                    n.insert(0, 'X');
                }
                taken.insert(f.name().to_owned(), n.clone());
            }
            b.d.oneof_decl.push(OneofDescriptorProto {
                name: Some(n),
                options: None,
            });
            self.seen("synthetic oneof");
        }

        let mset = opts
            .iter()
            .find(|(o, ..)| {
                o.name.len() == 1
                    && !o.name[0].is_extension
                    && o.name[0].name_part == "message_set_wire_format"
            })
            .map_or(
                false,
                |(o, ..)| matches!(&o.val, Val::Ident { neg: false, name } if name == "true"),
            );
        for (ranges, names, sp, first, head) in reserved {
            if names.is_empty() {
                let p = join(path, &[9]);
                self.decl(&p, sp, first, head);
                for r in ranges {
                    let p = join(&p, &[b.d.reserved_range.len() as i32]);
                    self.range_locs(&p, &r);
                    let (start, end) = self.msg_range(&r, mset);
                    b.d.reserved_range.push(ReservedRange { start, end });
                }
            } else {
                let p = join(path, &[10]);
                self.decl(&p, sp, first, head);
                for (n, nsp) in names {
                    self.loc(&join(&p, &[b.d.reserved_name.len() as i32]), nsp);
                    b.d.reserved_name.push(n);
                }
            }
        }
        for (ranges, list, sp, first, head) in extensions {
            let p = join(path, &[5]);
            self.decl(&p, sp, first, head);
            for r in ranges {
                let p = join(&p, &[b.d.extension_range.len() as i32]);
                self.range_locs(&p, &r);
                let options = self.options_of_list(&join(&p, &[3]), list.clone());
                let (start, end) = self.msg_range(&r, mset);
                b.d.extension_range.push(ExtensionRange {
                    start,
                    end,
                    options: options.map(|uninterpreted_option| ExtensionRangeOptions {
                        uninterpreted_option,
                    }),
                });
            }
        }
        b.d.options = self
            .options(&join(path, &[7]), opts)
            .map(|uninterpreted_option| MessageOptions {
                uninterpreted_option,
                ..Default::default()
            });
        debug_assert_eq!(end, self.i);
        Ok(b.d)
    }

    /// Number ranges: (start, end, end is `max`)
    fn ranges(&mut self) -> R<Vec<(IntT, IntT, bool)>> {
        let mut v = vec![];
        loop {
            let a = self.int()?;
            let mut r = (a, a, false);
            if self.is("to") {
                self.i += 1;
                if self.is("max") {
                    let (s, e) = self.span(self.i);
                    self.i += 1;
                    r = (
                        a,
                        IntT {
                            neg: false,
                            v: 0,
                            s,
                            e,
                        },
                        true,
                    );
                } else {
                    r = (a, self.int()?, false);
                }
            }
            v.push(r);
            if !self.sym(b',') {
                return Ok(v);
            }
            self.i += 1;
        }
    }
    fn range_locs(&mut self, p: &[i32], r: &(IntT, IntT, bool)) {
        self.loc(p, (r.0.s, r.1.e));
        self.loc(&join(p, &[1]), (r.0.s, r.0.e));
        self.loc(&join(p, &[2]), (r.1.s, r.1.e));
        self.seen("range");
    }
    fn msg_num(&mut self, n: &IntT) -> Option<i32> {
        match n.i32() {
            Some(x) if (1..=MAX_NUM).contains(&x) => Some(x),
            _ => {
                self.sem_d(
                    (n.s, n.e),
                    "message numbers must be between 1 and",
                    Class::Number,
                    MAX_NUM.to_string(),
                );
                None
            }
        }
    }
    fn enum_num(&mut self, n: &IntT) -> Option<i32> {
        let x = n.i32();
        if x.is_none() {
            self.sem(
                (n.s, n.e),
                "enum numbers must be between -2147483648 and 2147483647",
                Class::Number,
            );
        }
        x
    }
    /// Half-open; `max` is the largest field number (for message sets, the largest type id).
    fn msg_range(&mut self, r: &(IntT, IntT, bool), mset: bool) -> (Option<i32>, Option<i32>) {
        let a = self.msg_num(&r.0);
        let b = if r.2 {
            Some(if mset { i32::MAX } else { MAX_NUM + 1 })
        } else if r.0.s == r.1.s {
            a.map(|x| x + 1)
        } else {
            self.msg_num(&r.1).map(|x| x + 1)
        };
        (a, b)
    }

    fn oneof(&mut self, path: &[i32], b: &mut Body) -> R<()> {
        let s = self.i;
        self.i += 1;
        let (name, nsp) = self.ident()?;
        self.expect(b'{')?;
        let head = self.i - 1;
        let idx = b.real_oneofs as i32;
        b.real_oneofs += 1;
        let p = join(path, &[8, idx]);
        let mut opts = vec![];
        // reserve the slot: field numbers of a oneof's own fields come after its own index
        b.d.oneof_decl.push(OneofDescriptorProto::default());
        let before = b.d.field.len();
        loop {
            match self.id(self.i) {
                Some("option") => opts.push(self.option_stmt()?),
                Some(_) => self.field(path, 2, 3, Scope::Oneof, FieldDst::Body(b))?,
                None if self.sym(b'.') => {
                    self.field(path, 2, 3, Scope::Oneof, FieldDst::Body(b))?
                }
                None if self.sym(b';') => self.empty_stmt(),
                None if self.sym(b'}') => {
                    self.i += 1;
                    break;
                }
                None => return self.unexpected(),
            }
        }
        let sp = (self.span(s).0, self.span(self.i - 1).1);
        for f in &mut b.d.field[before..] {
            f.oneof_index = Some(idx);
        }
        if b.d.field.len() == before {
            self.sem(sp, "a oneof must have at least one field", Class::Kind);
        }
        self.decl(&p, sp, s, head);
        self.loc(&join(&p, &[1]), nsp);
        let options = self.options(&join(&p, &[2]), opts);
        b.d.oneof_decl[idx as usize] = OneofDescriptorProto {
            name: Some(name),
            options: options.map(|uninterpreted_option| OneofOptions {
                uninterpreted_option,
            }),
        };
        self.seen("oneof");
        Ok(())
    }

    fn extend(
        &mut self,
        path: &[i32],
        tag: i32,
        mtag: i32,
        fields: &mut Vec<FieldDescriptorProto>,
        messages: &mut Vec<DescriptorProto>,
    ) -> R<()> {
        let s = self.i;
        self.i += 1;
        let (extendee, esp) = self.type_name()?;
        self.expect(b'{')?;
        let head = self.i - 1;
        loop {
            let dot = self.sym(b'.');
            if self.id(self.i).is_some() || dot {
                let n = fields.len();
                self.loc(&join(path, &[tag, n as i32, 2]), esp);
                self.field(
                    path,
                    tag,
                    mtag,
                    Scope::Extend,
                    FieldDst::Lists(fields, messages),
                )?;
                fields[n].extendee = Some(extendee.clone());
            } else if self.sym(b';') {
                self.empty_stmt();
            } else if self.sym(b'}') {
                self.i += 1;
                break;
            } else {
                return self.unexpected();
            }
        }
        let sp = (self.span(s).0, self.span(self.i - 1).1);
        self.decl(&join(path, &[tag]), sp, s, head);
        self.seen("extend");
        Ok(())
    }

    fn field(
        &mut self,
        path: &[i32],
        tag: i32,
        mtag: i32,
        scope: Scope,
        mut dst: FieldDst,
    ) -> R<()> {
        let s = self.i;
        let mut label = None;
        if let Some(l @ ("optional" | "required" | "repeated")) = self.id(self.i) {
            label = Some((l, self.span(self.i)));
            self.i += 1;
        }
        let (fi, mi) = dst.indexes();
        let p = join(path, &[tag, fi as i32]);
        let mut f = FieldDescriptorProto::default();
        let t = self.i;
        let is_map = self.is("map")
            && matches!(self.lx.toks.get(t + 1).map(|t| &t.k), k if !matches!(k, Some(K::Id | K::Sym(b'.'))));
        let is_group = self.is("group");
        let mut ty = None;
        let mut tsp = (0, 0);
        let mut map: Option<(Ty, (usize, usize), Ty)> = None;
        if is_map {
            self.i += 1;
            self.expect(b'<')?;
            let (k, ksp) = self.ty()?;
            self.expect(b',')?;
            let (v, _) = self.ty()?;
            let e = self.expect(b'>')?;
            tsp = (self.span(t).0, e.1);
            map = Some((k, ksp, v));
        } else if is_group {
            self.i += 1;
            tsp = self.span(t);
        } else {
            let (a, b) = self.ty()?;
            ty = Some(a);
            tsp = b;
        }
        let (name, nsp) = self.ident()?;
        if is_group && !name.as_bytes()[0].is_ascii_uppercase() {
            self.err(nsp, "invalid group name", Class::Names);
        }
        self.expect(b'=')?;
        let num = self.int()?;
        let list = self.option_list()?;
        let mut group = None;
        let head;
        if is_group {
            self.expect(b'{')?;
            head = self.i - 1;
            group = Some(self.body(&join(path, &[mtag, mi as i32]), nsp)?);
        } else {
            self.expect(b';')?;
            head = self.i - 1;
        }
        let sp = (self.span(s).0, self.span(self.i - 1).1);

        // --- meaning
        self.loc(&join(&p, &[1]), nsp);
        self.loc(&join(&p, &[3]), (num.s, num.e));
        f.number = self.msg_num(&num);
        let proto3_opt = self.proto3 && matches!(label, Some(("optional", _)));
        if proto3_opt {
            f.proto3_optional = Some(true);
        }
        let mut list = list;
        let mut take = |n: &str| -> (Option<Opt>, bool) {
            let Some((v, _)) = &mut list else {
                return (None, false);
            };
            let m = |o: &Opt| {
                o.name.len() == 1 && !o.name[0].is_extension && o.name[0].name_part == n
            };
            let dup = v.iter().filter(|o| m(o)).count() > 1;
            match v.iter().position(m) {
                Some(i) => (Some(v.remove(i)), dup),
                None => (None, dup),
            }
        };
        let (default, dup1) = take("default");
        let (json, dup2) = take("json_name");
        if dup1 || dup2 {
            self.gray = true; // protoc rejects the repetition
        }
        if let Some(d) = &default {
            let what = if is_map {
                Some("map")
            } else if matches!(label, Some(("repeated", _))) {
                Some("repeated")
            } else {
                None
            };
            if let Some(w) = what {
                self.sem_d(
                    d.span,
                    "fields may not have default values",
                    Class::Default,
                    w.to_owned(),
                );
            } else if self.proto3 {
                self.sem(
                    d.span,
                    "default values are not allowed in proto3",
                    Class::Default,
                );
            }
            if is_group {
                self.sem_d(
                    d.span,
                    "fields may not have default values",
                    Class::Default,
                    "group".to_owned(),
                );
            }
        }
        // label
        if is_map {
            f.label = Some(Label::Repeated as i32);
            match (scope, label) {
                (Scope::Oneof, _) => {
                    self.sem(sp, "map fields are not allowed in a oneof", Class::Label)
                }
                (Scope::Extend, _) => self.sem(
                    sp,
                    "map fields are not allowed in extensions",
                    Class::Label,
                ),
                (_, Some((_, lsp))) => {
                    self.sem(lsp, "map fields cannot have labels", Class::Label)
                }
                _ => (),
            }
        } else {
            let v = match (scope, label) {
                (Scope::Extend, Some(("required", lsp))) => {
                    self.sem(
                        lsp,
                        "extension fields may not be required",
                        Class::Label,
                    );
                    None
                }
                (Scope::Oneof, Some((_, lsp))) => {
                    self.sem(lsp, "oneof fields cannot have labels", Class::Label);
                    None
                }
                (_, Some(("required", lsp))) if self.proto3 => {
                    self.sem(
                        lsp,
                        "required fields are not allowed in proto3",
                        Class::Label,
                    );
                    None
                }
                (Scope::Msg | Scope::Extend, None) if !self.proto3 => {
                    self.sem(sp, "fields must have a label", Class::Label);
                    None
                }
                (_, l) => {
                    if let Some((_, lsp)) = l {
                        self.loc(&join(&p, &[4]), lsp);
                    }
                    Some(match l {
                        Some(("required", _)) => Label::Required,
                        Some(("repeated", _)) => Label::Repeated,
                        _ => Label::Optional,
                    })
                }
            };
            f.label = v.map(|v| v as i32);
        }
        if is_group {
            let mp = join(path, &[mtag, mi as i32]);
            if self.proto3 {
                self.sem(sp, "groups are not allowed in proto3", Class::Kind);
            }
            f.name = Some(name.to_ascii_lowercase());
            f.r#type = Some(Type::Group as i32);
            f.type_name = Some(name.clone());
            self.loc(&p, sp);
            self.loc(&join(&p, &[5]), tsp);
            self.loc(&join(&p, &[6]), nsp);
            self.decl(&mp, sp, s, head);
            self.loc(&join(&mp, &[1]), nsp);
            let mut g = group.unwrap();
            g.name = Some(name.clone());
            dst.messages().push(g);
            self.seen("group");
        } else if let Some((k, ksp, v)) = map {
            f.name = Some(name.clone());
            f.r#type = Some(Type::Message as i32);
            let entry = pascal(&name) + "Entry";
            f.type_name = Some(entry.clone());
            self.decl(&p, sp, s, head);
            self.loc(&join(&p, &[6]), tsp);
            if matches!(
                k,
                Ty::Named(_) | Ty::Scalar(Type::Double | Type::Float | Type::Bytes)
            ) {
                self.sem(ksp, "a map field key type must be", Class::Kind);
            }
            let mk = |n: &str, num: i32, t: &Ty| FieldDescriptorProto {
                name: Some(n.to_owned()),
                json_name: Some(n.to_owned()),
                number: Some(num),
                label: Some(Label::Optional as i32),
                r#type: match t {
                    Ty::Scalar(t) => Some(*t as i32),
                    _ => None,
                },
                type_name: match t {
                    Ty::Named(n) => Some(n.clone()),
                    _ => None,
                },
                ..Default::default()
            };
            dst.messages().push(DescriptorProto {
                name: Some(entry),
                field: vec![mk("key", 1, &k), mk("value", 2, &v)],
                options: Some(MessageOptions {
                    map_entry: Some(true),
                    ..Default::default()
                }),
                ..Default::default()
            });
            self.seen("map");
        } else {
            f.name = Some(name.clone());
            self.decl(&p, sp, s, head);
            match ty.unwrap() {
                Ty::Scalar(t) => {
                    f.r#type = Some(t as i32);
                    self.loc(&join(&p, &[5]), tsp);
                    if let Some(d) = &default {
                        self.loc(&join(&p, &[7]), d.vspan);
                        f.default_value = self.default_value(t, d);
                    }
                }
                Ty::Named(n) => {
                    f.type_name = Some(n);
                    self.loc(&join(&p, &[6]), tsp);
                    if let Some(d) = &default {
                        self.loc(&join(&p, &[7]), d.vspan);
                        match &d.val {
                            Val::Ident { neg: false, name } => {
                                f.default_value = Some(name.clone())
                            }
                            // Only an enum value's name is a valid default, which is checked later
                            _ => self.gray = true,
                        }
                    }
                }
            }
            self.seen("field");
        }
        if let Some(j) = json {
            self.loc(&join(&p, &[10]), j.span);
            self.loc(&join(&p, &[10]), j.vspan);
            f.json_name = self.string_value(&j);
        }
        let had = list.is_some();
        let o = self.options_of_list(&join(&p, &[8]), list);
        if had {
            self.seen("field option list");
        }
        f.options = o.map(|uninterpreted_option| FieldOptions {
            uninterpreted_option,
            ..Default::default()
        });
        match dst {
            FieldDst::Body(b) => {
                if proto3_opt && scope == Scope::Msg {
                    b.synth.push(b.d.field.len());
                }
                b.d.field.push(f)
            }
            FieldDst::Lists(fs, _) => fs.push(f),
        }
        Ok(())
    }

    fn string_value(&mut self, o: &Opt) -> Option<String> {
        match &o.val {
            Val::Str(s) => match String::from_utf8(s.clone()) {
                Ok(s) => Some(s),
                Err(_) => {
                    self.sem(o.vspan, "not valid utf-8", Class::Default);
                    None
                }
            },
            _ => {
                self.sem(o.vspan, "expected value to be a string", Class::Default);
                None
            }
        }
    }

    fn default_value(&mut self, t: Type, o: &Opt) -> Option<String> {
        let range = match t {
            Type::Int32 | Type::Sint32 | Type::Sfixed32 => {
                Some((i32::MIN as i128, i32::MAX as i128))
            }
            Type::Int64 | Type::Sint64 | Type::Sfixed64 => {
                Some((i64::MIN as i128, i64::MAX as i128))
            }
            Type::Uint32 | Type::Fixed32 => Some((0, u32::MAX as i128)),
            Type::Uint64 | Type::Fixed64 => Some((0, u64::MAX as i128)),
            _ => None,
        };
        if let Some((lo, hi)) = range {
            return match &o.val {
                Val::Int { neg, v } => {
                    let x = if *neg { -(*v as i128) } else { *v as i128 };
                    if *neg && *v == 0 && lo == 0 {
                        // "-0" for an unsigned field
                        self.gray = true;
                    }
                    if (lo..=hi).contains(&x) {
                        Some(x.to_string())
                    } else {
                        self.sem_d(
                            o.vspan,
                            "out of range",
                            Class::Default,
                            format!("between {lo} and {hi} "),
                        );
                        None
                    }
                }
                _ => {
                    self.sem(o.vspan, "expected value to be an integer", Class::Default);
                    None
                }
            };
        }
        match t {
            Type::Float | Type::Double => {
                let x = match &o.val {
                    Val::Ident { neg, name } if name == "inf" || name == "nan" => {
                        let x = if name == "inf" {
                            f64::INFINITY
                        } else {
                            f64::NAN
                        };
                        if *neg {
                            -x
                        } else {
                            x
                        }
                    }
                    Val::Int { neg, v } => {
                        if *neg {
                            -(*v as f64)
                        } else {
                            *v as f64
                        }
                    }
                    Val::Float(x) => *x,
                    _ => {
                        self.sem(
                            o.vspan,
                            "expected value to be a floating-point number",
                            Class::Default,
                        );
                        return None;
                    }
                };
                Some(float_canon(x))
            }
            Type::Bool => match &o.val {
                Val::Ident { neg: false, name } if name == "true" || name == "false" => {
                    Some(name.clone())
                }
                _ => {
                    self.sem(
                        o.vspan,
                        "expected value to be either 'true' or 'false'",
                        Class::Default,
                    );
                    None
                }
            },
            Type::String => self.string_value(o),
            Type::Bytes => match &o.val {
                Val::Str(s) => Some(c_escape(s)),
                _ => {
                    self.sem(o.vspan, "expected value to be a string", Class::Default);
                    None
                }
            },
            _ => unreachable!(),
        }
    }

    // ---- enums
    fn enum_(&mut self, path: &[i32]) -> R<EnumDescriptorProto> {
        let s = self.i;
        self.i += 1;
        let (name, nsp) = self.ident()?;
        self.expect(b'{')?;
        let head = self.i - 1;
        let mut d = EnumDescriptorProto {
            name: Some(name),
            ..Default::default()
        };
        let mut opts = vec![];
        loop {
            let first = self.i;
            match self.id(first) {
                Some("option") => opts.push(self.option_stmt()?),
                Some("reserved") => {
                    self.i += 1;
                    let st = self.span(first).0;
                    if self.is_str() {
                        let mut names = vec![];
                        loop {
                            let (n, sp) = self.utf8()?;
                            if !valid_ident(&n) {
                                self.err(sp, "invalid identifier", Class::Names);
                            }
                            names.push((n, sp));
                            if !self.sym(b',') {
                                break;
                            }
                            self.i += 1;
                        }
                        let e = self.expect(b';')?;
                        let h = self.i - 1;
                        let p = join(path, &[5]);
                        self.decl(&p, (st, e.1), first, h);
                        for (n, sp) in names {
                            self.loc(&join(&p, &[d.reserved_name.len() as i32]), sp);
                            d.reserved_name.push(n);
                        }
                    } else {
                        let ranges = self.ranges()?;
                        let e = self.expect(b';')?;
                        let h = self.i - 1;
                        let p = join(path, &[4]);
                        self.decl(&p, (st, e.1), first, h);
                        for r in ranges {
                            let p = join(&p, &[d.reserved_range.len() as i32]);
                            self.range_locs(&p, &r);
                            // closed
                            let start = self.enum_num(&r.0);
                            let end = if r.2 {
                                Some(i32::MAX)
                            } else if r.0.s == r.1.s {
                                start
                            } else {
                                self.enum_num(&r.1)
                            };
                            d.reserved_range.push(EnumReservedRange { start, end });
                        }
                    }
                    self.seen("enum reserved");
                }
                Some(_) => {
                    let (n, vsp) = self.ident()?;
                    self.expect(b'=')?;
                    let num = self.int()?;
                    let list = self.option_list()?;
                    let e = self.expect(b';')?;
                    let h = self.i - 1;
                    let p = join(path, &[2, d.value.len() as i32]);
                    self.decl(&p, (vsp.0, e.1), first, h);
                    self.loc(&join(&p, &[1]), vsp);
                    self.loc(&join(&p, &[2]), (num.s, num.e));
                    let number = self.enum_num(&num);
                    let options = self.options_of_list(&join(&p, &[3]), list);
                    d.value.push(EnumValueDescriptorProto {
                        name: Some(n),
                        number,
                        options: options.map(|uninterpreted_option| EnumValueOptions {
                            uninterpreted_option,
                            ..Default::default()
                        }),
                    });
                    self.seen("enum value");
                }
                None if self.sym(b';') => self.empty_stmt(),
                None if self.sym(b'}') => {
                    self.i += 1;
                    break;
                }
                None => return self.unexpected(),
            }
        }
        let sp = (self.span(s).0, self.span(self.i - 1).1);
        self.decl(path, sp, s, head);
        self.loc(&join(path, &[1]), nsp);
        d.options = self
            .options(&join(path, &[3]), opts)
            .map(|uninterpreted_option| EnumOptions {
                uninterpreted_option,
                ..Default::default()
            });
        self.seen("enum");
        Ok(d)
    }

    // ---- services
    fn service(&mut self, path: &[i32]) -> R<ServiceDescriptorProto> {
        let s = self.i;
        self.i += 1;
        let (name, nsp) = self.ident()?;
        self.expect(b'{')?;
        let head = self.i - 1;
        let mut d = ServiceDescriptorProto {
            name: Some(name),
            ..Default::default()
        };
        let mut opts = vec![];
        loop {
            match self.id(self.i) {
                Some("option") => opts.push(self.option_stmt()?),
                Some("rpc") => {
                    let m = self.rpc(&join(path, &[2, d.method.len() as i32]))?;
                    d.method.push(m);
                }
                None if self.sym(b';') => self.empty_stmt(),
                None if self.sym(b'}') => {
                    self.i += 1;
                    break;
                }
                _ => return self.unexpected(),
            }
        }
        let sp = (self.span(s).0, self.span(self.i - 1).1);
        self.decl(path, sp, s, head);
        self.loc(&join(path, &[1]), nsp);
        d.options = self
            .options(&join(path, &[3]), opts)
            .map(|uninterpreted_option| ServiceOptions {
                uninterpreted_option,
                ..Default::default()
            });
        self.seen("service");
        Ok(d)
    }

    fn rpc_arg(&mut self) -> R<(Option<(usize, usize)>, String, (usize, usize))> {
        self.expect(b'(')?;
        let mut st = None;
        if self.is("stream") {
            st = Some(self.span(self.i));
            self.i += 1;
        }
        let (n, sp) = self.type_name()?;
        self.expect(b')')?;
        Ok((st, n, sp))
    }

    fn rpc(&mut self, path: &[i32]) -> R<MethodDescriptorProto> {
        let s = self.i;
        self.i += 1;
        let (name, nsp) = self.ident()?;
        let (cs, input, isp) = self.rpc_arg()?;
        if !self.is("returns") {
            return self.unexpected();
        }
        self.i += 1;
        let (ss, output, osp) = self.rpc_arg()?;
        let mut opts = vec![];
        let head = self.i;
        if self.sym(b'{') {
            self.i += 1;
            loop {
                if self.is("option") {
                    opts.push(self.option_stmt()?)
                } else if self.sym(b';') {
                    self.empty_stmt();
                } else {
                    self.expect(b'}')?;
                    break;
                }
            }
        } else {
            self.expect(b';')?;
        }
        let sp = (self.span(s).0, self.span(self.i - 1).1);
        self.decl(path, sp, s, head);
        self.loc(&join(path, &[1]), nsp);
        self.loc(&join(path, &[2]), isp);
        self.loc(&join(path, &[3]), osp);
        if let Some(sp) = cs {
            self.loc(&join(path, &[5]), sp);
        }
        if let Some(sp) = ss {
            self.loc(&join(path, &[6]), sp);
        }
        let options = self.options(&join(path, &[4]), opts);
        self.seen("rpc");
        Ok(MethodDescriptorProto {
            name: Some(name),
            input_type: Some(input),
            output_type: Some(output),
            options: options.map(|uninterpreted_option| MethodOptions {
                uninterpreted_option,
                ..Default::default()
            }),
            client_streaming: cs.map(|_| true),
            server_streaming: ss.map(|_| true),
        })
    }
}

enum FieldDst<'b> {
    Body(&'b mut Body),
    Lists(
        &'b mut Vec<FieldDescriptorProto>,
        &'b mut Vec<DescriptorProto>,
    ),
}

impl FieldDst<'_> {
    fn indexes(&self) -> (usize, usize) {
        match self {
            FieldDst::Body(b) => (b.d.field.len(), b.d.nested_type.len()),
            FieldDst::Lists(f, m) => (f.len(), m.len()),
        }
    }
    fn messages(&mut self) -> &mut Vec<DescriptorProto> {
        match self {
            FieldDst::Body(b) => &mut b.d.nested_type,
            FieldDst::Lists(_, m) => m,
        }
    }
}

fn join(a: &[i32], b: &[i32]) -> Vec<i32> {
    [a, b].concat()
}

/// Canonical text of a float, for comparison by value.
pub fn float_canon(x: f64) -> String {
    if x.is_nan() {
        "nan".into()
    } else {
        format!("{x:?}")
    }
}

/// Canonical text of a token, for comparison of aggregates by meaning.
pub fn canon(t: &lex::Tk, src: &str) -> String {
    match &t.k {
        K::Id => src[t.s..t.e].to_owned(),
        K::Int(v) => format!("i{v}"),
        K::Float(x) if x.is_infinite() => "inf".into(),
        K::Float(x) => format!("f{x:?}"),
        K::Str(s) => format!("s{}", c_escape(s)),
        K::Sym(c) => (*c as char).to_string(),
        K::Bad => "?".into(),
    }
}

/// The tokens of an aggregate value as the code under test reports it, in the same form.
pub fn canon_aggregate(text: &str) -> String {
    let l = lex::lex(text);
    l.toks
        .iter()
        .map(|t| canon(t, text))
        .collect::<Vec<_>>()
        .join("\u{1}")
}
