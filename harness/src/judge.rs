//! The oracle for single files: runs the real parser and compares with the reference model.
use crate::cmp::*;
use crate::spec::{self, Class, Exp, Model, Verdict};
use miette::Diagnostic;
#[allow(unused_imports)]
use std::option::Option::{self, None, Some};
use prost_types::*;
use protox_parse::ParseError;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Judged {
    pub diffs: Vec<Diff>,
    /// Classes of error the model expected (rejections), or of the error reported
    pub classes: Vec<Class>,
    pub accepted: bool,
    pub want_accept: bool,
    pub gray: bool,
    pub model: Model,
    pub got: Result<FileDescriptorProto, ParseError>,
    /// Tokens said to be expected that were tried in their place
    pub expectations: usize,
}

/// What rule an error message speaks of.
pub fn class_of(msg: &str) -> Class {
    const T: &[(&str, Class)] = &[
        ("invalid token", Class::Lexical),
        ("integer is too large", Class::Lexical),
        ("octal integer", Class::Lexical),
        ("string character", Class::Lexical),
        ("unterminated", Class::Lexical),
        ("escape", Class::Lexical),
        ("nested block", Class::Lexical),
        ("whitespace is required", Class::Lexical),
        ("comments are not allowed", Class::Lexical),
        ("suffix for float", Class::Lexical),
        ("message numbers", Class::Number),
        ("enum numbers", Class::Number),
        ("default value", Class::Default),
        ("fields are not allowed in ext", Class::Label),
        ("may not be required", Class::Label),
        ("cannot have labels", Class::Label),
        ("must have a label", Class::Label),
        ("required fields", Class::Label),
        ("not allowed in a oneof", Class::Label),
        ("groups are not allowed", Class::Kind),
        ("map field key", Class::Kind),
        ("at least one field", Class::Kind),
        ("expected value to be", Class::Default),
        ("may not be negative", Class::OptionValue),
        ("nested too deeply", Class::Nesting),
        ("invalid group name", Class::Names),
        ("invalid import", Class::Names),
        ("invalid identifier", Class::Names),
        ("multiple package", Class::Names),
        ("valid utf-8", Class::Names),
    ];
    T.iter()
        .find(|t| msg.contains(t.0))
        .map_or(Class::Syntax, |t| t.1)
}

/// Line and column (1-based; columns count bytes) of an offset, or nothing where a lone carriage
/// return makes the line a matter of taste.
pub fn line_col(src: &str, off: usize) -> Option<(usize, usize)> {
    let b = &src.as_bytes()[..off];
    for (i, c) in b.iter().enumerate() {
        if *c == b'\r' && (i + 1 == off || src.as_bytes()[i + 1] != b'\n') {
            return None;
        }
    }
    let line = b.iter().filter(|c| **c == b'\n').count();
    let start = b.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    Some((line + 1, off - start + 1))
}

fn labels(d: &dyn Diagnostic, out: &mut Vec<(usize, usize)>) {
    if let Some(ls) = d.labels() {
        for l in ls {
            out.push((l.offset(), l.offset() + l.len()));
        }
    }
    if let Some(rs) = d.related() {
        for r in rs {
            labels(r, out);
        }
    }
}

fn in_bounds(src: &str, (s, e): (usize, usize)) -> bool {
    s <= e && e <= src.len() && src.is_char_boundary(s) && src.is_char_boundary(e)
}

/// Checks of an error report that do not depend on the rejected text's meaning.
pub fn check_report(name: &str, src: &str, e: &ParseError) -> Vec<Diff> {
    let mut out = vec![];
    let mut bad = |s: String| out.push(diff(Facet::Error, s));
    if e.file() != name {
        bad(format!("error names file {:?}, parsed {name:?}", e.file()));
    }
    let mut ls = vec![];
    labels(e, &mut ls);
    for l in &ls {
        if !in_bounds(src, *l) {
            bad(format!("label {l:?} of {e} is not inside the text"));
        }
    }
    let shown = format!("{e}");
    if shown.is_empty() {
        bad("empty message".into());
    }
    let dbg = format!("{e:?}");
    match e.span() {
        Some(sp) => {
            if !in_bounds(src, (sp.start, sp.end)) {
                bad(format!("span {sp:?} of {e} is not inside the text"));
            } else if !ls.contains(&(sp.start, sp.end)) {
                bad(format!("span {sp:?} of {e} has no label"));
            } else if let Some((l, c)) = line_col(src, sp.start) {
                let want = format!("{name}:{l}:{c}: {shown}");
                if dbg != want {
                    bad(format!("debug form {dbg:?}, expected {want:?}"));
                }
            }
        }
        None => {
            if dbg != shown {
                bad(format!("debug form {dbg:?} of an error without span"));
            }
        }
    }
    out
}

/// Renders the error through miette's handlers: must not panic or fail.
pub fn render(e: &dyn Diagnostic) -> Vec<Diff> {
    let mut out = vec![];
    let mut s = String::new();
    let h = miette::GraphicalReportHandler::new_themed(miette::GraphicalTheme::unicode_nocolor());
    if h.render_report(&mut s, e).is_err() {
        out.push(diff(Facet::Error, "graphical rendering failed"));
    }
    if !s.contains(&first_word(&e.to_string())) {
        out.push(diff(Facet::Error, "rendering lacks the message"));
    }
    if s.contains("Failed to read contents for label") {
        out.push(diff(Facet::Error, "rendering cannot read its labels"));
    }
    s.clear();
    if miette::NarratableReportHandler::new().render_report(&mut s, e).is_err() {
        out.push(diff(Facet::Error, "narrated rendering failed"));
    }
    s.clear();
    if miette::JSONReportHandler::new().render_report(&mut s, e).is_err() {
        out.push(diff(Facet::Error, "JSON rendering failed"));
    }
    out
}

/// Whether what a syntax error says was expected and found is true is part of the check.
pub static EXPECTATIONS: AtomicBool = AtomicBool::new(false);

/// The alternatives a message lists: each as shown and with texts of which one must be welcome.
fn alternatives(mut list: &str) -> Vec<(String, Vec<String>)> {
    const PHRASES: &[(&str, &[&str])] = &[
        ("an identifier", &["name_1"]),
        ("a string literal", &["\"s\""]),
        ("a string", &["\"s\"", "\"proto3\""]),
        ("a positive integer or string", &["7", "\"s\""]),
        ("a positive integer", &["7"]),
        ("an integer", &["7"]),
        ("a numeric literal", &["1.5", "7"]),
        ("a constant", &["7", "name_1"]),
        ("a field type", &["int32"]),
        ("a type name", &["Name"]),
        ("a message field", &["optional", "int32"]),
        ("oneof", &["oneof"]),
        ("reserved range", &["reserved"]),
        ("enum", &["enum"]),
        ("message", &["message"]),
        ("option", &["option"]),
    ];
    let mut out = vec![];
    while !list.is_empty() {
        if let Some(rest) = list.strip_prefix(", ").or_else(|| list.strip_prefix(" or ")) {
            list = rest;
        } else if let Some((t, rest)) = list.strip_prefix('\'').and_then(|l| l[1..].find('\'').map(|k| (&l[..k + 1], &l[k + 2..]))) {
            out.push((format!("'{t}'"), vec![t.to_owned()]));
            list = rest;
        } else if let Some((t, texts)) = PHRASES.iter().find(|p| list.starts_with(p.0)) {
            out.push((t.to_string(), texts.iter().map(|t| t.to_string()).collect()));
            list = &list[t.len()..];
        } else {
            return vec![]; // not a form known here
        }
    }
    out
}

/// A syntax error says what it found and what would have been allowed in its place: the first must
/// be what is there, and each of the second must get the parser past that place.
pub fn check_expected(name: &str, src: &str, e: &ParseError, tried: &mut usize) -> Vec<Diff> {
    let mut out = vec![];
    let msg = e.to_string();
    if e.related().is_some_and(|mut r| r.next().is_some()) || msg.starts_with("expected value to be") {
        return out;
    }
    let Some(list) = msg.strip_prefix("expected ") else { return out };
    let (list, at) = match (list.strip_suffix(", but reached end of file"), e.span()) {
        (Some(l), None) => (l, src.len()),
        (None, Some(sp)) => {
            let Some(k) = list.rfind(", but found '").filter(|_| list.ends_with('\'')) else { return out };
            let found = &list[k + ", but found '".len()..list.len() - 1];
            let text = src.get(sp.start..sp.end).unwrap_or("");
            let ok = match text.bytes().next() {
                Some(b'0'..=b'9') => match text.strip_prefix("0x").or_else(|| text.strip_prefix("0X")) {
                    Some(h) => u64::from_str_radix(h, 16).map_or(true, |v| found == v.to_string()),
                    None if text.len() > 1 && text.starts_with('0') => u64::from_str_radix(text, 8).map_or(true, |v| found == v.to_string()),
                    None => text.parse::<u64>().map_or(true, |v| found == v.to_string()),
                },
                Some(b'"' | b'\'') if text.bytes().all(|b| b.is_ascii_graphic() && b != b'\\') => {
                    let inner = &text[1..text.len() - 1];
                    inner.contains(['"', '\'']) || found == format!("\"{inner}\"")
                }
                Some(b'"' | b'\'' | b'.') if text.len() > 1 => true,
                _ => found == text,
            };
            if !ok {
                out.push(diff(Facet::Error, format!("the message says {found:?} was found where {text:?} is")));
            }
            (&list[..k], sp.start)
        }
        _ => return out,
    };
    let Some(before) = src.get(..at) else { return out };
    let open_end = if at == src.len() { "\n" } else { " " };
    for (shown, texts) in alternatives(list) {
        *tried += 1;
        let welcome = texts.iter().any(|t| {
            let s = format!("{before}{open_end}{t} ");
            match crate::drive::sut(|| protox_parse::parse(name, &s)) {
                Ok(_) => true,
                Err(e) => {
                    let msg = e.to_string();
                    let again = msg.starts_with("expected ") && !msg.starts_with("expected value to be") && e.span().is_some_and(|sp| sp.start == at + 1);
                    !again
                }
            }
        });
        if !welcome {
            out.push(diff(Facet::Error, format!("the message says {shown} was expected at {at}, but there it is an error too ({msg})")));
        }
    }
    out
}

fn first_word(s: &str) -> String {
    s.split_whitespace().next().unwrap_or("").to_owned()
}

fn matches(exp: &Exp, e: &ParseError, msg: &str, help: &str) -> bool {
    let span = e.span().map(|s| (s.start, s.end));
    let span_ok = match (exp.span, span) {
        (None, None) => true,
        (Some(a), Some(b)) if exp.exact => a == b,
        (Some(a), Some(b)) => a.0 <= b.0 && b.1 <= a.1,
        _ => false,
    };
    span_ok
        && msg.contains(exp.kind)
        && (exp.detail.is_empty() || msg.contains(&exp.detail) || help.contains(&exp.detail))
}

pub fn judge(name: &str, src: &str) -> Judged {
    crate::drive::about_to_try(src);
    let got = crate::drive::sut(|| protox_parse::parse(name, src));
    judge_with(name, src, got)
}

pub fn judge_with(
    name: &str,
    src: &str,
    got: Result<FileDescriptorProto, ParseError>,
) -> Judged {
    let model = spec::model(name, src);
    let mut diffs = vec![];
    let mut classes = vec![];
    let mut expectations = 0;
    if let Err(e) = &got {
        diffs.extend(crate::drive::sut(|| check_report(name, src, e)));
        if EXPECTATIONS.load(Ordering::Relaxed) && src.len() < 20_000 {
            diffs.extend(check_expected(name, src, e, &mut expectations));
        }
    }
    match (&model.verdict, &got) {
        _ if model.gray => (),
        (Verdict::Accept(want), Ok(f)) => {
            diffs.extend(compare(want, f));
            match &f.source_code_info {
                None => diffs.push(diff(Facet::Loc, "no source info")),
                Some(s) => diffs.extend(compare_locs(
                    &want.source_code_info.as_ref().unwrap().location,
                    &s.location,
                    !model.fuzzy_comments,
                )),
            }
        }
        (Verdict::Accept(_), Err(e)) => {
            classes.push(class_of(&e.to_string()));
            diffs.push(diff(Facet::Verdict, format!("valid file rejected: {e:?}")));
        }
        (Verdict::Reject(exps), Ok(_)) => {
            classes.extend(exps.iter().map(|e| e.class));
            diffs.push(diff(
                Facet::Verdict,
                format!("invalid file accepted, expected {:?}", exps[0]),
            ));
        }
        (Verdict::Reject(exps), Err(e)) => {
            classes.extend(exps.iter().map(|e| e.class));
            let msg = e.to_string();
            let help = e.help().map(|h| h.to_string()).unwrap_or_default();
            if !exps.iter().any(|x| matches(x, e, &msg, &help)) {
                diffs.push(diff(
                    Facet::Error,
                    format!(
                        "reported {:?} at {:?}, expected {}",
                        msg,
                        e.span(),
                        exps.iter()
                            .take(4)
                            .map(|x| format!(
                                "{:?} {} {}",
                                x.span,
                                if x.exact { "exactly" } else { "within" },
                                x.kind
                            ))
                            .collect::<Vec<_>>()
                            .join(" or ")
                    ),
                ));
            }
        }
    }
    Judged {
        accepted: got.is_ok(),
        want_accept: matches!(model.verdict, Verdict::Accept(_)),
        gray: model.gray,
        diffs,
        classes,
        model,
        got,
        expectations,
    }
}
