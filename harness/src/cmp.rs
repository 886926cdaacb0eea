//! Compares descriptors facet by facet.
use crate::spec::canon_aggregate;
use prost_types::source_code_info::Location;
#[allow(unused_imports)]
use std::option::Option::{self, None, Some};
use prost_types::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Facet {
    /// Verdict: accepted or rejected
    Verdict,
    /// Names, kinds, types, labels, order and nesting of declarations
    Decl,
    /// Numbers and number ranges
    Range,
    /// Options: names, kinds of value, order
    Opt,
    /// Values of options, from literals
    Lit,
    /// default_value, json_name
    Default,
    /// Synthesised declarations: groups, map entries, oneofs of optional fields
    Synth,
    /// Paths and spans of source locations
    Loc,
    Comment,
    /// Error messages, spans
    Error,
    /// Panics, crashes, hangs
    Crash,
    /// Two runs that must agree do not
    Meta,
    /// Anything at the level of the compiler
    Graph,
    Resolve,
    Output,
    Io,
    History,
    Resource,
}

#[derive(Clone, Debug)]
pub struct Diff {
    pub facet: Facet,
    pub what: String,
}

pub fn diff(facet: Facet, what: impl Into<String>) -> Diff {
    Diff {
        facet,
        what: what.into(),
    }
}

type Rows = Vec<(Facet, String, String)>;

fn options(rows: &mut Rows, at: &str, us: &[UninterpretedOption]) {
    rows.push((Facet::Opt, format!("{at}#options"), us.len().to_string()));
    for (i, u) in us.iter().enumerate() {
        let at = format!("{at}.option[{i}]");
        let name = u
            .name
            .iter()
            .map(|p| {
                if p.is_extension {
                    format!("({})", p.name_part)
                } else {
                    p.name_part.clone()
                }
            })
            .collect::<Vec<_>>()
            .join("|");
        rows.push((Facet::Opt, format!("{at}.name"), name));
        let mut kinds = vec![];
        let mut vals = vec![];
        if let Some(v) = &u.identifier_value {
            kinds.push("ident");
            vals.push(v.clone());
        }
        if let Some(v) = &u.positive_int_value {
            kinds.push("positive int");
            vals.push(v.to_string());
        }
        if let Some(v) = &u.negative_int_value {
            kinds.push("negative int");
            vals.push(v.to_string());
        }
        if let Some(v) = &u.double_value {
            kinds.push("double");
            vals.push(format!("{v:?}"));
        }
        if let Some(v) = &u.string_value {
            kinds.push("string");
            vals.push(crate::spec::c_escape(v));
        }
        if let Some(v) = &u.aggregate_value {
            kinds.push("aggregate");
            // The model gives tokens in canonical form; the code under test gives text
            vals.push(match v.strip_prefix('\u{2}') {
                Some(c) => c.to_owned(),
                None => canon_aggregate(v),
            });
        }
        rows.push((Facet::Opt, format!("{at}.kind"), kinds.join("+")));
        rows.push((Facet::Lit, format!("{at}.value"), vals.join("+")));
    }
}

macro_rules! opts {
    ($rows:expr, $at:expr, $o:expr) => {
        match &$o {
            None => $rows.push((Facet::Opt, format!("{}#options", $at), "none".into())),
            Some(o) => {
                options($rows, &$at, &o.uninterpreted_option);
                let mut rest = o.clone();
                rest.uninterpreted_option.clear();
                if rest != Default::default() {
                    $rows.push((Facet::Opt, format!("{}#other options", $at), format!("{rest:?}")));
                }
            }
        }
    };
}

fn float_default(f: &FieldDescriptorProto, v: &str) -> String {
    use field_descriptor_proto::Type;
    match f.r#type() {
        Type::Double | Type::Float if f.r#type.is_some() => match v.parse::<f64>() {
            Ok(x) if x.is_nan() => "nan".into(),
            Ok(x) => format!("{x:?}"),
            Err(_) => format!("unparseable {v:?}"),
        },
        _ => v.to_owned(),
    }
}

fn field(rows: &mut Rows, at: &str, f: &FieldDescriptorProto, synth: bool) {
    use field_descriptor_proto::Type;
    let d = if synth { Facet::Synth } else { Facet::Decl };
    let group = f.r#type == Some(Type::Group as i32);
    let gd = if group { Facet::Synth } else { d };
    rows.push((gd, format!("{at}.name"), format!("{:?}", f.name)));
    rows.push((
        if synth { Facet::Synth } else { Facet::Range },
        format!("{at}.number"),
        format!("{:?}", f.number),
    ));
    rows.push((d, format!("{at}.label"), format!("{:?}", f.label)));
    rows.push((d, format!("{at}.type"), format!("{:?}", f.r#type)));
    rows.push((gd, format!("{at}.type_name"), format!("{:?}", f.type_name)));
    rows.push((d, format!("{at}.extendee"), format!("{:?}", f.extendee)));
    rows.push((
        Facet::Default,
        format!("{at}.default_value"),
        format!("{:?}", f.default_value.as_deref().map(|v| float_default(f, v))),
    ));
    rows.push((
        Facet::Default,
        format!("{at}.json_name"),
        format!("{:?}", f.json_name),
    ));
    let so = if f.proto3_optional() { Facet::Synth } else { Facet::Decl };
    rows.push((so, format!("{at}.oneof_index"), format!("{:?}", f.oneof_index)));
    rows.push((
        Facet::Synth,
        format!("{at}.proto3_optional"),
        format!("{:?}", f.proto3_optional),
    ));
    opts!(rows, at, f.options);
}

fn message(rows: &mut Rows, at: &str, m: &DescriptorProto) {
    let entry = m.options.as_ref().map_or(false, |o| o.map_entry());
    let d = if entry { Facet::Synth } else { Facet::Decl };
    rows.push((d, format!("{at}.name"), format!("{:?}", m.name)));
    rows.push((
        Facet::Decl,
        format!("{at}#children"),
        format!(
            "fields {} messages {} enums {} extensions {} reserved names {:?}",
            m.field.len(),
            m.nested_type.len(),
            m.enum_type.len(),
            m.extension.len(),
            m.reserved_name,
        ),
    ));
    let first_synth = m
        .field
        .iter()
        .filter(|f| f.proto3_optional())
        .filter_map(|f| f.oneof_index)
        .min()
        .unwrap_or(i32::MAX);
    for (i, o) in m.oneof_decl.iter().enumerate() {
        let d = if i as i32 >= first_synth { Facet::Synth } else { Facet::Decl };
        let at = format!("{at}.oneof[{i}]");
        rows.push((d, format!("{at}.name"), format!("{:?}", o.name)));
        opts!(rows, at, o.options);
        if d == Facet::Synth {
            rows.push((d, format!("{at}.is plain"), o.options.is_none().to_string()));
        }
    }
    if entry {
        // what is made up has nothing but what it needs
        let plain = m.options == Some(MessageOptions { map_entry: Some(true), ..Default::default() })
            && m.field.iter().all(|f| f.options.is_none() && f.default_value.is_none() && f.oneof_index.is_none() && f.proto3_optional.is_none());
        rows.push((Facet::Synth, format!("{at}.is plain"), plain.to_string()));
    }
    for (i, f) in m.field.iter().enumerate() {
        field(rows, &format!("{at}.field[{i}]"), f, entry);
    }
    for (i, f) in m.extension.iter().enumerate() {
        field(rows, &format!("{at}.extension[{i}]"), f, false);
    }
    for (i, x) in m.nested_type.iter().enumerate() {
        message(rows, &format!("{at}.message[{i}]"), x);
    }
    for (i, x) in m.enum_type.iter().enumerate() {
        enum_(rows, &format!("{at}.enum[{i}]"), x);
    }
    rows.push((
        Facet::Range,
        format!("{at}.reserved"),
        m.reserved_range
            .iter()
            .map(|r| format!("{:?}..{:?}", r.start, r.end))
            .collect::<Vec<_>>()
            .join(" "),
    ));
    rows.push((
        Facet::Range,
        format!("{at}.extensions"),
        m.extension_range
            .iter()
            .map(|r| format!("{:?}..{:?}", r.start, r.end))
            .collect::<Vec<_>>()
            .join(" "),
    ));
    for (i, r) in m.extension_range.iter().enumerate() {
        let at = format!("{at}.extensions[{i}]");
        opts!(rows, at, r.options);
    }
    opts!(rows, at, m.options);
}

fn enum_(rows: &mut Rows, at: &str, e: &EnumDescriptorProto) {
    rows.push((Facet::Decl, format!("{at}.name"), format!("{:?}", e.name)));
    rows.push((
        Facet::Decl,
        format!("{at}#children"),
        format!("{} {:?}", e.value.len(), e.reserved_name),
    ));
    for (i, v) in e.value.iter().enumerate() {
        let at = format!("{at}.value[{i}]");
        rows.push((Facet::Decl, format!("{at}.name"), format!("{:?}", v.name)));
        rows.push((Facet::Range, format!("{at}.number"), format!("{:?}", v.number)));
        opts!(rows, at, v.options);
    }
    rows.push((
        Facet::Range,
        format!("{at}.reserved"),
        e.reserved_range
            .iter()
            .map(|r| format!("{:?}..={:?}", r.start, r.end))
            .collect::<Vec<_>>()
            .join(" "),
    ));
    opts!(rows, at, e.options);
}

pub fn rows(f: &FileDescriptorProto) -> Rows {
    let mut v = vec![];
    let rows = &mut v;
    rows.push((
        Facet::Decl,
        "file".into(),
        format!(
            "name {:?} package {:?} syntax {:?} dependency {:?} public {:?} weak {:?}",
            f.name, f.package, f.syntax, f.dependency, f.public_dependency, f.weak_dependency
        ),
    ));
    rows.push((
        Facet::Decl,
        "file#children".into(),
        format!(
            "messages {} enums {} services {} extensions {}",
            f.message_type.len(),
            f.enum_type.len(),
            f.service.len(),
            f.extension.len()
        ),
    ));
    for (i, m) in f.message_type.iter().enumerate() {
        message(rows, &format!("message[{i}]"), m);
    }
    for (i, e) in f.enum_type.iter().enumerate() {
        enum_(rows, &format!("enum[{i}]"), e);
    }
    for (i, x) in f.extension.iter().enumerate() {
        field(rows, &format!("extension[{i}]"), x, false);
    }
    for (i, s) in f.service.iter().enumerate() {
        let at = format!("service[{i}]");
        rows.push((Facet::Decl, format!("{at}.name"), format!("{:?}", s.name)));
        rows.push((Facet::Decl, format!("{at}#children"), s.method.len().to_string()));
        for (j, m) in s.method.iter().enumerate() {
            let at = format!("{at}.rpc[{j}]");
            rows.push((
                Facet::Decl,
                at.clone(),
                format!(
                    "{:?} {:?} {:?} client {} server {}",
                    m.name,
                    m.input_type,
                    m.output_type,
                    m.client_streaming(),
                    m.server_streaming()
                ),
            ));
            opts!(rows, at, m.options);
        }
        opts!(rows, at, s.options);
    }
    opts!(rows, "file", f.options);
    v
}

/// Drop source info and everything the comparison of rows normalises.
pub fn compare(want: &FileDescriptorProto, got: &FileDescriptorProto) -> Vec<Diff> {
    let (w, g) = (rows(want), rows(got));
    compare_rows(&w, &g)
}

pub fn compare_rows(w: &Rows, g: &Rows) -> Vec<Diff> {
    let mut out = vec![];
    let gm: BTreeMap<&str, (&Facet, &str)> =
        g.iter().map(|(f, k, v)| (k.as_str(), (f, v.as_str()))).collect();
    let wm: std::collections::HashSet<&str> = w.iter().map(|r| r.1.as_str()).collect();
    for (f, k, v) in w {
        match gm.get(k.as_str()) {
            None => out.push(diff(*f, format!("{k}: expected {v}, but absent"))),
            Some((_, x)) if x != v => {
                out.push(diff(*f, format!("{k}: expected {v}, got {x}")))
            }
            _ => (),
        }
    }
    for (f, k, v) in g {
        if !wm.contains(k.as_str()) {
            out.push(diff(*f, format!("{k}: unexpected, got {v}")));
        }
    }
    out
}

type Span = Vec<i32>;

fn by_path(ls: &[Location]) -> BTreeMap<Vec<i32>, Vec<&Location>> {
    let mut m: BTreeMap<Vec<i32>, Vec<&Location>> = BTreeMap::new();
    for l in ls {
        m.entry(l.path.clone()).or_default().push(l);
    }
    for v in m.values_mut() {
        v.sort_by_key(|l| l.span.clone());
    }
    m
}

/// Locations: the same paths, with the same spans and comments. `comments` says whether to compare
/// comments.
pub fn compare_locs(want: &[Location], got: &[Location], comments: bool) -> Vec<Diff> {
    let mut out = vec![];
    let (w, g) = (by_path(want), by_path(got));
    let spans = |v: &[&Location]| v.iter().map(|l| l.span.clone()).collect::<Vec<Span>>();
    for (p, ls) in &w {
        match g.get(p) {
            None => out.push(diff(
                Facet::Loc,
                format!("no location for path {p:?}, expected at {:?}", spans(ls)),
            )),
            Some(gs) if spans(ls) != spans(gs) => out.push(diff(
                Facet::Loc,
                format!("path {p:?}: expected spans {:?}, got {:?}", spans(ls), spans(gs)),
            )),
            Some(gs) if comments => {
                for (a, b) in ls.iter().zip(gs) {
                    let c = |l: &Location| {
                        (
                            l.leading_detached_comments.clone(),
                            l.leading_comments.clone(),
                            l.trailing_comments.clone(),
                        )
                    };
                    if c(a) != c(b) {
                        out.push(diff(
                            Facet::Comment,
                            format!(
                                "path {p:?}: expected (detached, leading, trailing) {:?}, got {:?}",
                                c(a),
                                c(b)
                            ),
                        ));
                    }
                }
            }
            _ => (),
        }
    }
    for (p, gs) in &g {
        if !w.contains_key(p) {
            out.push(diff(
                Facet::Loc,
                format!("unexpected location for path {p:?} at {:?}", spans(gs)),
            ));
        }
    }
    out
}
